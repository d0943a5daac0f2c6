"""Collects what one rule analysed and what it found."""
import re

from .state import show


def num(s):
    """Finding keys must not contain line numbers."""
    return re.sub(r':\d+', '', s)


class Report(object):

    def __init__(self, pid):
        self.pid = pid
        self.rules = {}        # rule name -> description
        self.obl = {}          # (rule, construct) -> 'held' | 'violated'
        self.bad = {}          # key -> record
        self.undec = {}
        self.scenarios = []
        self.events = {}
        self.fn = set()
        self.calls = set()
        self.branches = set()
        self.ext = {}
        self.unknown = {}
        self.steps = 0
        self.paths = 0
        self.notes = []
        self.part = None       # (k, n): only every n-th scenario is run, starting with the k-th
        self.count = 0
        self.of = None         # the property this one rests on that is being decided

    def mine(self):
        """Is the next scenario to be run by this process?"""
        self.count += 1
        return self.part is None or self.count % self.part[1] == self.part[0]

    def join(self, o):
        for k, v in o.obl.items():
            if v == 'violated' or k not in self.obl:
                self.obl[k] = v
        for k, b in o.bad.items():
            if k not in self.bad or len(b['path']) < len(self.bad[k]['path']):
                self.bad[k] = b
        self.rules.update(o.rules)
        self.undec.update(o.undec)
        self.scenarios += o.scenarios
        for k, v in o.events.items():
            self.events.setdefault(k, set()).update(v)
        self.fn |= o.fn
        self.calls |= o.calls
        self.branches |= o.branches
        for k, v in o.ext.items():
            self.ext[k] = self.ext.get(k, 0) + v
        for k, v in o.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v
        self.steps += o.steps
        self.paths += o.paths
        self.notes += [x for x in o.notes if x not in self.notes]

    def rule(self, name, text):
        if self.of is not None:
            name += ' (%s)' % self.of
        self.rules[name] = ' '.join(text.split())
        return name

    def hold(self, rule, construct, n=1):
        """Obligation `construct` of `rule` is met (at one site, on one path, in one case)."""
        k = (rule, construct)
        if self.obl.get(k) != 'violated':
            self.obl[k] = 'held'

    def fail(self, rule, function, construct, msg, where='', path=(), stack=()):
        lost = [x for x in path if x.startswith('~ ')]
        if lost:
            self.undecided(rule, '%s: %s' % (function, construct), '%s (%s)' % (msg, lost[0][2:]))
            return
        key = '%s|%s|%s' % (rule, function, num(construct))
        self.obl[(rule, '%s: %s' % (function, construct))] = 'violated'
        if key not in self.bad or len(path) < len(self.bad[key]['path']):
            self.bad[key] = {'rule': rule, 'function': function, 'construct': construct, 'message': msg,
                             'where': where, 'path': list(path), 'stack': list(stack), 'key': key}

    def at(self, ok, rule, construct, msg, ip, st, node, case=''):
        """Obligation at a program point: recorded as held, or reported with its path."""
        fn = st.fn.qualname if st is not None and st.fn is not None else '?'
        if ok:
            self.hold(rule, '%s %s: %s%s' % (ip.where(st, node), fn, construct, case))
            return True
        self.fail(rule, fn, construct + case, msg, ip.where(st, node), st.path(), ip.stackinfo(st))
        return False

    def check(self, ok, rule, function, construct, held, msg, st=None):
        """Obligation decided at the end of a path."""
        if ok:
            self.hold(rule, held)
        else:
            self.fail(rule, function, construct, msg, '', st.path() if st is not None else ())
        return ok

    def undecided(self, rule, construct, why):
        self.undec['%s|%s' % (rule, construct)] = why

    def event(self, kind, where):
        self.events.setdefault(kind, set()).add(where)

    def absorb(self, ip, name=None, paths=0):
        self.fn |= ip.fn_seen
        self.calls |= ip.call_sites
        self.branches |= ip.branches
        for k, v in ip.ext_seen.items():
            self.ext[k] = self.ext.get(k, 0) + v
        for k, v in ip.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v
        self.steps += ip.steps
        self.paths += paths
        if name:
            self.scenarios.append(name)

    def coverage(self):
        held = sorted('%s: %s' % k for k, v in self.obl.items() if v == 'held')
        return {
            'explanation': '; '.join('%s = %s' % kv for kv in sorted(self.rules.items())),
            'scenarios': self.scenarios,
            'functions_analysed': len(self.fn),
            'functions': sorted(self.fn),
            'call_sites': len(self.calls),
            'branch_points': len(self.branches),
            'external_calls': sum(self.ext.values()),
            'abstract_steps': self.steps,
            'paths_ended': self.paths,
            'obligations': len(self.obl),
            'obligations_held': sum(1 for v in self.obl.values() if v == 'held'),
            'obligation_list': held[:300],
            'events_seen': {k: sorted(v) for k, v in sorted(self.events.items())},
            'undecided': self.undec,
            'unmodelled_constructs': dict(sorted(self.unknown.items())[:40]),
            'notes': self.notes,
        }


def txt(t):
    return show(t) if isinstance(t, tuple) else str(t)
