"""Abstract values (terms), heap records, facts and states.

A value is a nested tuple:
  ('c', type, v)                 constant
  ('p', name)                    input
  ('attr', base, name)           attribute of an unknown object
  ('elem', src, token)           element of an unknown iterable
  ('call', dotted, args, kws)    result of an external call
  ('meth', recv, name, args, kws)
  ('bin', op, a, b) ('un', op, a) ('idx', base, index) ('len', x)
  ('cat', parts)                 string concatenation
  ('pred', atom, neg)            truth value of a comparison
  ('int', lo)                    some integer >= lo (counters)
  ('fresh', what, key)           unknown
  ('ref', id)                    heap object
  ('fn', qualname, self|None) ('cls', qualname) ('mod', name) ('ext', dotted)
  ('bm', recv, name)             method of a non-project value
  ('tup', items)
  ('exc', cls, args, exact)      exception object
"""

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def C(v):
    return ('c', type(v).__name__, v)


def is_c(v):
    return v[0] == 'c'


_okey = {}


def okey(t):
    k = _okey.get(t)
    if k is None:
        k = repr(t)
        if len(_okey) > 200000:
            _okey.clear()
        _okey[t] = k
    return k


NONNULL = {'cat', 'bin', 'un', 'len', 'pred', 'int', 'ref', 'fn', 'cls', 'mod', 'ext', 'bm', 'tup',
           'exc', 'sum', 'fmt', 'clo'}


def mentions(t, x):
    """True if term t contains term x."""
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        for y in t:
            if isinstance(y, (tuple, frozenset)) and mentions(y, x):
                return True
    return False


def rename(t, mp, memo=None):
    """Replace sub-terms by mapping mp (keys are tuples)."""
    if not isinstance(t, (tuple, frozenset)):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = mp.get(t)
    if r is None:
        if isinstance(t, tuple):
            ch = False
            out = []
            for y in t:
                if isinstance(y, (tuple, frozenset)):
                    z = rename(y, mp, memo)
                    if z is not y:
                        ch = True
                    out.append(z)
                else:
                    out.append(y)
            r = tuple(out) if ch else t
        else:
            out = [rename(y, mp, memo) for y in t]
            r = frozenset(out)
            if r == t:
                r = t
    memo[t] = r
    return r


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))


def show(t, depth=0):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return '...'
    d = depth + 1
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 'p':
        return t[1]
    if k == 'attr':
        return show(t[1], d) + '.' + t[2]
    if k == 'elem':
        tok = t[2]
        n = tok if isinstance(tok, str) else (tok[0] if tok else '')
        return '%s of %s' % ({'wit': 'the entry', 'it': 'an entry', 'old': 'an earlier entry', 'q': 'some entry'}.get(n, 'entry %s' % (n,)), show(t[1], d))
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join([show(a, d) for a in t[2]]
                                           + ['%s=%s' % (n, show(v, d)) for n, v in (t[3] if len(t) > 3 else ())]))
    if k == 'meth':
        return '%s.%s(%s)' % (show(t[1], d), t[2], ', '.join(show(a, d) for a in t[3]))
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'cat':
        return ' + '.join(show(p, d) for p in t[1])
    if k == 'len':
        return 'len(%s)' % show(t[1], d)
    if k == 'idx':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'tup':
        return '(%s)' % ', '.join(show(p, d) for p in t[1])
    if k == 'int':
        return 'int>=%s' % t[1]
    if k == 'fresh':
        return '<%s>' % (t[1],)
    if k == 'exc':
        return '%s(%s)' % (t[1], ', '.join(show(a, d) for a in t[2]))
    if k in ('fn', 'cls', 'ext', 'mod'):
        return t[1]
    if k == 'pred':
        return ('not ' if t[2] else '') + show_atom(t[1])
    if k == 'fmt':
        return '%s %% %s' % (t[1], show(t[2], d))
    return '<%s>' % k


def show_atom(a):
    if a[0] == 'isnone':
        return '%s is None' % show(a[1])
    if a[0] == 'truth':
        return 'bool(%s)' % show(a[1])
    if a[0] == 'eq':
        return '%s == %s' % (show(a[1]), show(a[2]))
    if a[0] == 'lt':
        return '%s < %s' % (show(a[1]), show(a[2]))
    if a[0] == 'in':
        return '%s in %s' % (show(a[1]), show(a[2]))
    return '%s(%s)' % (a[0], ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]))


LEAF = frozenset(('c', 'p', 'cls', 'mod', 'ext', 'int'))


def refs_of(t, out):
    """Append the heap ids occurring in term t to out."""
    if isinstance(t, tuple):
        if t:
            k = t[0]
            if k == 'ref' and len(t) == 2:
                out.append(t[1])
                return
            if k.__class__ is str and k in LEAF:
                return
    elif not isinstance(t, frozenset):
        return
    for y in t:
        if isinstance(y, (tuple, frozenset)):
            refs_of(y, out)


REFS = {}


def refs_in(t):
    """Heap ids in a term; remembered by identity (the entry keeps the term alive)."""
    r = REFS.get(id(t))
    if r is None or r[0] is not t:
        out = []
        refs_of(t, out)
        if len(REFS) > 100000:
            REFS.clear()
        r = REFS[id(t)] = (t, frozenset(out))
    return r[1]


class Obj(object):
    """Immutable heap record."""

    __slots__ = ('kind', 'cls', 'attrs', 'items', 'may', 'must', 'ne', '_key', '_refs')

    def __init__(self, kind, cls=None, attrs=None, items=(), may=frozenset(), must=frozenset(), ne=False):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items        # tuple (exact) or None (summary); dict: tuple of (k, v, must)
        self.may = may            # summary element values; dict: frozenset of (k, v) unknown entries
        self.must = must
        self.ne = ne              # summary known non-empty
        self._key = None
        self._refs = None

    def refs(self):
        if self._refs is None:
            out = []
            for v in self.values():
                refs_of(v, out)
            self._refs = tuple(set(out))
        return self._refs

    def but(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.items, self.may, self.must, self.ne)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def setattr(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return self.but(attrs=a)

    def delattr(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return self.but(attrs=a)

    def key(self):
        if self._key is None:
            self._key = (self.kind, self.cls, frozenset(self.attrs.items()), self.items, self.may, self.must, self.ne)
        return self._key

    def rename(self, mp, memo):
        attrs = {k: rename(v, mp, memo) for k, v in self.attrs.items()}
        return Obj(self.kind, self.cls, attrs, rename(self.items, mp, memo) if self.items is not None else None,
                   rename(self.may, mp, memo), rename(self.must, mp, memo), self.ne)

    def values(self):
        for v in self.attrs.values():
            yield v
        for part in (self.items, self.may, self.must):
            if part:
                for v in part:
                    yield v


class Frame(object):
    """Saved environment of a caller (immutable)."""

    __slots__ = ('fn', 'env', 'node', '_key', '_refs')

    def __init__(self, fn, env, node):
        self.fn = fn
        self.env = env
        self.node = node
        self._key = None
        self._refs = None

    def refs(self):
        if self._refs is None:
            out = []
            for v in self.env.values():
                refs_of(v, out)
            self._refs = tuple(set(out))
        return self._refs

    def key(self):
        if self._key is None:
            self._key = frozenset(self.env.items())
        return self._key


class Unsat(Exception):
    pass


NONNULL_CALLS = frozenset(('builtins.str', 'builtins.int', 'builtins.float', 'builtins.repr', 'w3c', 'time'))
SHARED = frozenset(('clsattr', 'gvar', 'default'))
PRISTINE = {}       # id -> object as first made


class State(object):
    __slots__ = ('env', 'fn', 'stack', 'heap', 'facts', 'sa', 'auto', 'trail')

    def __init__(self):
        self.env = {}
        self.fn = None
        self.stack = ()
        self.heap = {}
        self.facts = {}
        self.sa = {}
        self.auto = None
        self.trail = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.fn = self.fn
        s.stack = self.stack
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.sa = dict(self.sa)
        s.auto = self.auto
        s.trail = self.trail
        return s

    def key(self):
        return (frozenset(self.env.items()), tuple(f.key() for f in self.stack),
                frozenset((k, o.key()) for k, o in self.heap.items()),
                frozenset(self.sa.items()), self.auto)

    def note(self, text):
        self.trail = (text, self.trail)

    def lossy(self, text):
        """The path is one of the interpretation only, it may not exist: no violation is reported on it (see Report.fail)."""
        self.trail = ('~ ' + text, self.trail)

    def path(self):
        out = []
        t = self.trail
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    # ---- renaming, garbage

    def rename(self, mp, keep_facts=True):
        memo = {}
        only = {k[1] for k in mp} if all(k[0] == 'ref' for k in mp) else None
        if only is not None:
            full = rename

            def ren(t, mp, memo):
                if t.__class__ is tuple and only.isdisjoint(refs_in(t)):
                    return t
                return full(t, mp, memo)
        else:
            ren = rename
        self.env = {k: ren(v, mp, memo) for k, v in self.env.items()}
        if self.stack:
            new = []
            for f in self.stack:
                if only is not None and only.isdisjoint(f.refs()):
                    new.append(f)
                    continue
                e = {k: rename(v, mp, memo) for k, v in f.env.items()}
                new.append(f if all(e[k] is f.env[k] for k in e) else Frame(f.fn, e, f.node))
            self.stack = tuple(new)
        if only is None:
            self.heap = {rename(k, mp, memo) if isinstance(k, tuple) else k: o.rename(mp, memo) for k, o in self.heap.items()}
        else:
            heap = {}
            for k, o in self.heap.items():
                if not only.isdisjoint(o.refs()):
                    o = o.rename(mp, memo)
                if k.__class__ is tuple and not only.isdisjoint(refs_in(k)):
                    k = rename(k, mp, memo)
                heap[k] = o
            self.heap = heap
        self.sa = {ren(k, mp, memo): ren(v, mp, memo) for k, v in self.sa.items()}
        self.auto = rename(self.auto, mp, memo) if isinstance(self.auto, (tuple, frozenset)) else self.auto
        if keep_facts:
            facts = {}
            for k, v in self.facts.items():
                if only is None or not only.isdisjoint(refs_in(k)):
                    k = norm_atom(rename(k, mp, memo))
                facts[k] = v
            self.facts = facts

    def roots(self):
        for v in self.env.values():
            yield v
        for f in self.stack:
            for v in f.env.values():
                yield v
        for k, v in self.sa.items():
            yield k
            yield v
        if isinstance(self.auto, (tuple, frozenset)):
            yield self.auto

    def gc(self):
        refs = set()
        todo = []
        for v in self.env.values():
            refs_of(v, todo)
        for f in self.stack:
            todo.extend(f.refs())
        for k, v in self.sa.items():
            refs_of(k, todo)
            refs_of(v, todo)
        if isinstance(self.auto, (tuple, frozenset)):
            refs_of(self.auto, todo)
        heap = self.heap
        for k in heap:
            # objects of class bodies, modules and parameter defaults outlive the call that changed them
            if k[1] in SHARED and PRISTINE.get(k) is not heap[k]:
                todo.append(k)
        while todo:
            r = todo.pop()
            if r not in refs:
                refs.add(r)
                o = heap.get(r)
                if o is not None:
                    todo.extend(o.refs())
        if len(heap) > len(refs) or any(k not in refs for k in heap):
            self.heap = {k: o for k, o in heap.items() if k in refs}

    # ---- facts

    def constval(self, t):
        """Constant value of a term under the facts, or None."""
        if t[0] == 'c':
            return t
        v = self.facts.get(('val', t))
        return v

    def learn(self, atom, val):
        """Add a fact (no check)."""
        if atom[0] == 'eq' and val:
            a, b = atom[1], atom[2]
            if a[0] == 'c' and b[0] != 'c':
                self.facts[('val', b)] = a
            elif b[0] == 'c' and a[0] != 'c':
                self.facts[('val', a)] = b
        self.facts[atom] = val

    def decide(self, atom):
        k = atom[0]
        f = self.facts.get(atom)
        if f is not None:
            return f
        if k == 'isnone':
            return self._isnone(atom[1])
        if k == 'truth':
            return self._truth(atom[1])
        if k == 'eq':
            return self._eq(atom[1], atom[2])
        if k == 'lt':
            return self._lt(atom[1], atom[2])
        if k == 'isinst':
            return None
        return None

    def _isnone(self, t):
        if t[0] == 'c':
            return t[2] is None
        if t[0] in NONNULL or t[0] == 'call' and t[1] in NONNULL_CALLS:
            return False
        f = self.facts.get(('isnone', t))
        if f is not None:
            return f
        v = self.facts.get(('val', t))
        if v is not None:
            return v[2] is None
        f = self.facts.get(('truth', t))
        if f:
            return False
        for a, val in self.facts.items():
            if val is True and a[0] == 'lt' and (a[1] == t or a[2] == t):
                return False
            if a[0] == 'lt' and val is False and (a[1] == t or a[2] == t):
                return False
            if val is True and a[0] == 'eq' and (a[1] == t or a[2] == t):
                o = a[2] if a[1] == t else a[1]
                if o[0] != 'c':
                    n = self.facts.get(('isnone', o))
                    if n is not None:
                        return n
        return None

    def _truth(self, t):
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k == 'tup':
            return len(t[1]) > 0
        if k in ('fn', 'cls', 'mod', 'ext', 'bm', 'exc', 'clo'):
            return True
        if k == 'cat':
            for p in t[1]:
                if p[0] == 'c' and p[2]:
                    return True
        if k == 'pred':
            d = self.decide(t[1])
            return None if d is None else (d != t[2])
        if k == 'int':
            if t[1] is not None and t[1] >= 1:
                return True
            return None
        v = self.facts.get(('val', t))
        if v is not None:
            return bool(v[2])
        if self.facts.get(('isnone', t)) is True:
            return False
        if k == 'len':
            return self._notempty(t)
        if k in ('bin', 'sum'):
            b = self._bounds(t)
            return True if b[0] >= 1 or b[1] < 0 else (False if b == (0, 0) else None)
        if k == 'ref':
            return None
        ln = ('len', t)
        b = self._bounds(ln)
        if b[0] >= 1:
            return True
        if b[1] == 0:
            return False
        return None

    def _notempty(self, ln):
        b = self._bounds(ln)
        if b[0] >= 1:
            return True
        if b[1] == 0:
            return False
        f = self.facts.get(('truth', ln[1]))
        return f

    def _bounds(self, t):
        """Integer bounds (lo, hi) of a length or counter term."""
        if t[0] == 'c':
            return (t[2], t[2])
        if t[0] == 'int':
            return (t[1] if t[1] is not None else -10**12, 10**12)
        if t[0] == 'bin' and t[1] in ('+', '-', 'Add', 'Sub'):
            la, ha = self._bounds(t[2])
            lb, hb = self._bounds(t[3])
            if t[1] in ('-', 'Sub'):
                lb, hb = -hb, -lb
            lo, hi = max(la + lb, -10**12), min(ha + hb, 10**12)
        elif t[0] == 'sum':
            lo, hi = 0, 10**12
            for x in t[1]:
                b = self._bounds(x)
                lo = lo + b[0] if b[0] >= 0 and lo >= 0 else -10**12
        else:
            lo, hi = (0 if t[0] == 'len' else -10**12), 10**12
        v = self.facts.get(('val', t))
        if v is not None and isinstance(v[2], (int, float)):
            return (v[2], v[2])
        if t[0] == 'len' and self.facts.get(('truth', t)) is not None:
            if self.facts[('truth', t)]:
                lo = max(lo, 1)
            else:
                hi = min(hi, 0)
        ne = []
        for a, val in self.facts.items():
            if a[0] == 'lt':
                x, y = a[1], a[2]
                if x == t and y[0] == 'c' and isinstance(y[2], (int, float)):
                    if val:
                        hi = min(hi, y[2] - 1)
                    else:
                        lo = max(lo, y[2])
                elif y == t and x[0] == 'c' and isinstance(x[2], (int, float)):
                    if val:
                        lo = max(lo, x[2] + 1)
                    else:
                        hi = min(hi, x[2])
            elif a[0] == 'eq' and val is False:
                if a[1] == t and a[2][0] == 'c':
                    ne.append(a[2][2])
                elif a[2] == t and a[1][0] == 'c':
                    ne.append(a[1][2])
        if t[0] == 'len':
            f = self.facts.get(('truth', t[1]))
            if f is True:
                lo = max(lo, 1)
            elif f is False:
                hi = min(hi, 0)
        for _ in ne:
            if lo in ne:
                lo += 1
            if hi in ne:
                hi -= 1
        return (lo, hi)

    def _eq(self, a, b):
        if a == b:
            return True if a[0] != 'int' else None
        if a[0] == 'bin' or b[0] == 'bin':
            d = _difference(a, b)
            if d is not None:
                return d == 0
        ca, cb = self.constval(a), self.constval(b)
        if ca is not None and cb is not None:
            return ca[2] == cb[2]
        if a[0] in ('ref', 'fn', 'cls', 'mod', 'ext', 'tup', 'exc') and b[0] in ('c', 'ref', 'fn', 'cls', 'mod', 'ext', 'tup', 'exc'):
            if a[0] == b[0] in ('tup', 'ref', 'exc'):
                return None
            return False
        if b[0] in ('ref', 'fn', 'cls', 'mod', 'ext', 'tup', 'exc') and a[0] == 'c':
            return False
        if a == NONE:
            return self._isnone(b)
        if b == NONE:
            return self._isnone(a)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and isinstance(x[2], (int, float)) and not isinstance(x[2], bool) and y[0] in ('len', 'int', 'bin', 'sum'):
                lo, hi = self._bounds(y)
                if x[2] < lo or x[2] > hi:
                    return False
                if lo == hi == x[2]:
                    return True
            if x[0] == 'c' and x[2] is not None and self.facts.get(('isnone', y)) is True:
                return False
            if x[0] == 'c' and x[2] and self.facts.get(('truth', y)) is False:
                return False
            if x[0] == 'c' and not x[2] and self.facts.get(('truth', y)) is True:
                return False
            if x[0] == 'c' and y[0] == 'cat':
                d = _cat_vs_const(y, x[2])
                if d is not None:
                    return d
        na, nb = self._isnone(a), self._isnone(b)
        if na is not None and nb is not None:
            if na != nb:
                return False
            if na and nb:
                return True
        # congruence over equalities
        if self._reach_eq(a, b):
            return True
        if self._lt_facts(a, b) is True or self._lt_facts(b, a) is True:
            return False
        return None

    def _reach_eq(self, a, b):
        seen = {a}
        todo = [a]
        eqs = [(x[1], x[2]) for x, v in self.facts.items() if x[0] == 'eq' and v is True]
        if not eqs:
            return False
        while todo:
            x = todo.pop()
            for p, q in eqs:
                for u, w in ((p, q), (q, p)):
                    if u == x and w not in seen:
                        if w == b:
                            return True
                        if w[0] == 'c':
                            continue
                        seen.add(w)
                        todo.append(w)
        return False

    def _num(self, t):
        v = self.constval(t)
        if v is not None and isinstance(v[2], (int, float)):
            return v[2]
        return None

    def _lt(self, a, b):
        if a == b and a[0] != 'int':
            return False
        if a[0] == 'bin' or b[0] == 'bin':
            d = _difference(a, b)
            if d is not None:
                return d < 0
        x, y = self.constval(a), self.constval(b)
        if x is not None and y is not None:
            try:
                return x[2] < y[2]
            except TypeError:
                return None
        N = ('len', 'int', 'bin', 'sum')
        if (a[0] in N or b[0] in N) and (self._num(a) is not None or self._num(b) is not None or (a[0] in N and b[0] in N)):
            la, ha = self._bounds(a)
            lb, hb = self._bounds(b)
            if ha < lb:
                return True
            if la >= hb:
                return False
        r = self._lt_facts(a, b)
        if r is not None:
            return r
        r = self._lt_facts(b, a)
        if r is True:
            return False
        if r == 'le':
            return False
        r = self._lt_facts(a, b, want_le=True)
        return None

    def _lt_facts(self, a, b, want_le=False):
        """True if a<b follows from the facts; for internal use 'le' if only a<=b does."""
        edges = []
        consts = set()
        for f, v in self.facts.items():
            if f[0] == 'lt':
                if v:
                    edges.append((f[1], f[2], True))
                else:
                    edges.append((f[2], f[1], False))
                for t in (f[1], f[2]):
                    if self._num(t) is not None:
                        consts.add(t)
            elif f[0] == 'eq' and v is True:
                edges.append((f[1], f[2], False))
                edges.append((f[2], f[1], False))
        if not edges:
            return None
        for t in (a, b):
            if self._num(t) is not None:
                consts.add(t)
        consts = list(consts)
        for i, p in enumerate(consts):
            for q in consts[i + 1:]:
                m, n = self._num(p), self._num(q)
                if m <= n:
                    edges.append((p, q, m < n))
                if n <= m:
                    edges.append((q, p, n < m))
        best = {a: False}
        todo = [a]
        while todo:
            x = todo.pop()
            s = best[x]
            for u, w, strict in edges:
                if u == x:
                    ns = s or strict
                    if w not in best or (ns and not best[w]):
                        best[w] = ns
                        todo.append(w)
        if b in best and b != a:
            return True if best[b] else 'le'
        return None

    def le(self, a, b):
        """True if a <= b is known."""
        if a == b:
            return True
        x, y = self._num(a), self._num(b)
        if x is not None and y is not None:
            return x <= y
        return self._lt_facts(a, b) is not None

    def close_order(self, gone):
        """Add order facts that would be lost when terms satisfying gone() are dropped."""
        terms = set()
        dying = False
        for f in self.facts:
            if f[0] in ('lt', 'eq'):
                for t in (f[1], f[2]):
                    if gone(t):
                        dying = True
                    else:
                        terms.add(t)
        if not dying:
            return
        terms = [t for t in terms]
        new = {}
        for a in terms:
            for b in terms:
                if a != b and self._num(a) is None or self._num(b) is None:
                    if a == b:
                        continue
                    r = self._lt_facts(a, b)
                    if r is True:
                        new[('lt', a, b)] = True
                    elif r == 'le':
                        new[('lt', b, a)] = False
        for k, v in new.items():
            self.facts.setdefault(k, v)

    def assume(self, atom, val):
        """State in which atom has the value, or None if impossible (self is not changed)."""
        d = self.decide(atom)
        if d is not None:
            return self if d == val else None
        s = self.copy()
        s.learn(atom, val)
        return s


def _difference(a, b):
    """a - b if both are the same unknown number plus a constant."""
    r = []
    for t in (a, b):
        if t[0] == 'bin' and t[1] == '+' and t[2][0] == 'p' and t[3][0] == 'c' and isinstance(t[3][2], (int, float)):
            r.append((t[2], t[3][2]))
        else:
            r.append((t, 0))
    return r[0][1] - r[1][1] if r[0][0] == r[1][0] and r[0][0][0] == 'p' else None


def _cat_vs_const(cat, c):
    """Can a concatenation equal a constant? False if not, None if unknown."""
    if not isinstance(c, str):
        return False
    parts = cat[1]
    if parts[0][0] == 'c' and isinstance(parts[0][2], str) and not c.startswith(parts[0][2]):
        return False
    if parts[-1][0] == 'c' and isinstance(parts[-1][2], str) and not c.endswith(parts[-1][2]):
        return False
    n = sum(len(p[2]) for p in parts if p[0] == 'c' and isinstance(p[2], str))
    if n > len(c):
        return False
    return None


def mk_eq(a, b):
    if okey(a) > okey(b):
        a, b = b, a
    return ('eq', a, b)


def norm_atom(a):
    if a and a[0] == 'eq':
        return mk_eq(a[1], a[2])
    return a


def merge_states(states):
    """Merge states with equal key: keep the facts they share."""
    out = {}
    for s in states:
        k = s.key()
        o = out.get(k)
        if o is None:
            out[k] = s
        else:
            if o.facts != s.facts:
                o.facts = join_facts(o, s)
    return list(out.values())


def join_facts(o, s):
    """Facts of either state that both entail."""
    to = {t for a in o.facts if a[0] in ('lt', 'eq') for t in a[1:]}
    ts = {t for a in s.facts if a[0] in ('lt', 'eq') for t in a[1:]}
    if to - ts:
        o.close_order(lambda t: t not in ts)
    if ts - to:
        s.close_order(lambda t: t not in to)
    fo, fs = o.facts, s.facts
    out = {}
    for a, v in fo.items():
        if a in fs:
            if fs[a] == v:
                out[a] = v
        elif a[0] != 'val' and s.decide(a) == v:
            out[a] = v
    for a, v in fs.items():
        if a not in fo and a[0] != 'val' and o.decide(a) == v:
            out[a] = v
    return out
