#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current source statically.

Exit 0: holds (known findings are printed); 1: VIOLATION lines; 2: the analysis
could not be done (an anchor of the rule is gone, nothing was decided).
"""
import importlib
import json
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from rsa.model import Program, AnchorError          # noqa: E402
from rsa.interp import Budget                       # noqa: E402
from rsa.report import Report                       # noqa: E402
from rsa import registry                            # noqa: E402


def known():
    """{(property, key): text} of the findings listed in known_findings.txt."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known: '):
                head, text = line[7:].split(' :: ', 1)
                pid, key = head.split(' ', 1)
                out[(pid[9:], key)] = text
    return out


def decide(pid, ent, tier, part=None):
    rep = Report(pid)
    rep.part = part
    err = None
    try:
        prog = Program()
        mod = importlib.import_module('rsa.rules.' + ent['module'])
        if ent['parallel'] or part is None or part[0] == 0:
            rep.part = part if ent['parallel'] else None
            getattr(mod, 'rule_' + pid)(prog, rep, tier)
        rep.part = part
    except AnchorError as e:
        err = 'anchor not found: %s' % e
    except Budget as e:
        rep.undecided('budget', 'whole rule', str(e))
    except Exception:
        traceback.print_exc()
        err = 'internal error'
    if err is None:
        for q in ent['rests']:
            rests(prog, rep, tier, q)
    return rep, err


def rests(prog, rep, tier, q):
    """Decide property q too, as part of the one that rests on it."""
    rep.of = q
    try:
        mod = importlib.import_module('rsa.rules.' + registry.RULES[q]['module'])
        getattr(mod, 'rule_' + q)(prog, rep, tier)
    except (AnchorError, Budget) as e:
        rep.undecided('part ' + q, 'whole rule', str(e))
    except Exception:
        traceback.print_exc()
        rep.undecided('part ' + q, 'whole rule', 'internal error')
    rep.of = None


def parallel(pid, ent, tier):
    """Share the scenarios of a rule between processes."""
    n = min(8, os.cpu_count() or 1)
    jobs = []
    for k in range(n):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            code = 1
            try:
                os.close(r)
                res = decide(pid, ent, tier, (k, n))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        jobs.append((p, r))
    rep, err = None, None
    for p, r in jobs:
        try:
            with os.fdopen(r, 'rb') as f:
                x, e = pickle.load(f)
        except Exception:
            x, e = Report(pid), 'a worker process failed'
        os.waitpid(p, 0)
        err = err or e
        if rep is None:
            rep = x
        else:
            rep.join(x)
    return rep, err


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ent = registry.RULES[pid]
    if (ent['parallel'] or ent['rests']) and '--serial' not in argv:
        rep, err = parallel(pid, ent, tier)
    else:
        rep, err = decide(pid, ent, tier)
    kn = known()
    viol = []
    for key, b in sorted(rep.bad.items()):
        if (pid, key) in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, key)]))
        else:
            viol.append(b)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    cov = rep.coverage()
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': ent.get('level', 'other'),
        'coverage': cov,
        'assumptions': ent.get('assumptions', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    for k, why in sorted(rep.undec.items()):
        print('UNDECIDED: %s: %s' % (k, why))
    print('%s: %d obligations, %d functions, %d call sites, %d scenarios, %.1fs'
          % (pid, len(rep.obl), len(rep.fn), len(rep.calls), len(rep.scenarios), time.time() - t0))
    for i, b in enumerate(viol):
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.txt' % (pid, i + 1))
        with open(path, 'w') as f:
            f.write('property %s\nrule     %s: %s\nwhere    %s in %s\nconstruct %s\n%s\n'
                    % (pid, b['rule'], rep.rules.get(b['rule'], ''), b['where'], b['function'], b['construct'], b['message']))
            f.write('key      %s\n' % b['key'])
            if b['stack']:
                f.write('called through\n' + ''.join('  %s\n' % s for s in b['stack']))
            if b['path']:
                f.write('path (decisions)\n' + ''.join('  %s\n' % s for s in b['path']))
        print('  %s: %s in %s: %s -- %s' % (b['where'], b['rule'], b['function'], b['construct'], b['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if viol:
        return 1
    if err:
        print('ERROR: %s' % err)
        return 2
    if not rep.obl:
        print('ERROR: nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
