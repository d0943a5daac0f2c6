"""Write DESIGN.md: head, plan per property (registry, statements), planted bugs, tail."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from rsa import registry  # noqa: E402
from design_plan import PLAN  # noqa: E402


def main():
    props = {}
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            props[d['id']] = d
    out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## Plan per property', '',
           'For each: what is analysed and within what bounds; the oracle; why this reaches what the tests cannot.', '']
    for pid in sorted(registry.RULES):
        e = registry.RULES[pid]
        oracle, reach = PLAN[pid]
        rests = ' Also decides %s.' % ', '.join(e['rests']) if e['rests'] else ''
        out.append('* **%s %s** (`%s`). %s%s *Oracle:* %s *Beyond tests:* %s' % (
            pid, props[pid]['title'], e['module'], e['note'], rests, oracle, reach))
    out += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip(), '', '## Planted bugs', '',
            'Each was written from the property and the code, confirmed (demonstration and stable tests) in a scratch copy, and',
            'then tried against the check of its property. "not caught at first" means the check was strengthened for it.', '',
            '| id | property | what it breaks | caught by |', '|---|---|---|---|']
    for p in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(p))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['what_it_breaks'].replace('|', '/'),
                                            m.get('caught', m['property'])))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
