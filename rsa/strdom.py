"""Abstract domain of strings: concatenations of constants and unknown pieces with known properties.

A piece is a term registered with sym(); it stands for every string with the
given properties.  Operations are decided when every string of the abstract
value gives the same answer; otherwise they fork, and the state is marked
imprecise (a rule must not report a violation on such a path).
"""
import re as _re
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:                    # pragma: no cover
    import sre_parse as sre
    import sre_constants as sc

from .state import C, NONE, TRUE, FALSE, Obj, is_c
from . import ext as X
from .sync import aget, aput

BIG = 10 ** 9
P0 = 0xE000


class Piece(object):
    def __init__(self, min=0, max=BIG, no='', first_no='', last_no='', ne=(), nosegs=False, notconst=(), norm=False, only=None):
        self.min, self.max = min, max
        self.no = frozenset(no)
        self.first_no = frozenset(first_no) | self.no
        self.last_no = frozenset(last_no) | self.no
        self.ne = frozenset(ne)            # one-character pieces this one differs from
        self.nosegs = nosegs               # no '..' segment
        self.notconst = frozenset(notconst)
        self.norm = norm                   # path without empty, '.' or '..' segments, neither starting nor ending with '/'
        self.only = only                   # set of all characters it may have


ANY = Piece()


class StrDom(object):

    def __init__(self, ip):
        self.ip = ip
        self.props = {}
        self.abs = {}           # parts -> absolute path (term)
        self.urls = {}          # term -> 6 terms
        self.n = 0
        self.dotall = False
        self.forks_ok = False
        ip.strdom = self
        h = ip.hooks
        for m in ('startswith', 'endswith', 'find', 'index', 'rfind', 'rindex', 'split', 'rsplit', 'partition', 'rpartition',
                  'strip', 'rstrip', 'lstrip', 'replace', 'removeprefix', 'removesuffix', 'join', 'count', 'isalnum', 'isdigit',
                  'casefold', 'lower', 'upper', '__contains__', 'encode'):
            h['.' + m] = self.method
        for f in ('match', 'search', 'fullmatch', 'sub', 'split', 'compile', 'escape', 'findall'):
            h['re.' + f] = self.re_call
        for f in ('dirname', 'basename', 'join', 'normpath', 'abspath', 'realpath', 'commonpath', 'commonprefix', 'isabs', 'split',
                  'relpath', 'normcase', 'expanduser'):
            h['os.path.' + f] = self.path
            h['posixpath.' + f] = self.path
        for f in ('urlparse', 'urlsplit'):
            h['urllib.parse.' + f] = self.urlparse
        h['urllib.parse.unquote'] = self.ident
        for m in ('group', 'groups', 'start', 'end', 'span', '__getitem__', 'expand'):
            h['re.Match.' + m] = self.match_method
        for m in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
            h['re.Pattern.' + m] = self.pattern_method

    # -- values

    def sym(self, name, **kw):
        t = ('p', name)
        self.props[t] = Piece(**kw)
        self.ip.types[t] = 'str'
        return t

    def chr(self, name, **kw):
        return self.sym(name, min=1, max=1, **kw)

    def prop(self, t):
        return self.props.get(t, ANY)

    def parts(self, t):
        if t[0] == 'c':
            return () if t[2] == '' else ((t,) if isinstance(t[2], str) else None)
        if t[0] == 'cat':
            return t[1]
        if t in self.props:
            return (t,)
        if t[0] in ('attr', 'meth', 'call', 'slice', 'idx', 'fmt', 'fresh', 'p', 'elem'):
            return (t,)
        return None

    def dom(self, t):
        """Does the term contain a registered piece?"""
        if t in self.props:
            return True
        if t[0] == 'cat':
            return any(p in self.props for p in t[1])
        return False

    def mk(self, parts):
        c = X.cat(list(parts))
        if c[0] == 'cat' and len(c[1]) == 1:
            return c[1][0]
        return c

    def imprecise(self, st, what):
        if aget(st, 'imprecise') is None:
            aput(st, 'imprecise', str(what)[:120])

    def forked(self, st, atom):
        """The interpreter could not decide a condition."""
        if not self.forks_ok:
            self.imprecise(st, 'condition')

    def item(self, st, v, i, node):
        P = self.parts(v)
        n = self.position(P, i) if P is not None else None
        if n is not None:
            if i[0] == 'c' and i[2] < 0:
                lo, hi = n, dict(n[0])
            r = self.cut_at(P, n)
            if r is not None and r[1]:
                h = r[1][0]
                if h[0] == 'c':
                    return [(st, C(h[2][0]))]
                if self.prop(h).min == self.prop(h).max == 1:
                    return [(st, h)]
                if self.prop(h).min >= 1:
                    # its first character
                    p = self.prop(h)
                    return [(st, self.sym('first character of %s' % (h,), min=1, max=1, no=p.first_no))]
            if r is not None and not r[1]:
                self.ip.throw(st, 'builtins.IndexError', (), node)
                return []
            if i == C(-1) and P and P[-1][0] != 'c' and self.prop(P[-1]).min >= 1:
                p = self.prop(P[-1])
                return [(st, self.sym('last character of %s' % (P[-1],), min=1, max=1, no=p.last_no))]
        self.imprecise(st, 'index')
        return [(st, ('fresh', 'str:index', self.ip.site(st, node)))]

    # -- occurrences of a string in another

    def occ(self, U, pat):
        """[(left, right)] for every occurrence of pat in U, leftmost first, overlaps included; None if not certain."""
        if not pat:
            return None
        h = pat[0]
        out = []
        U = tuple(U)
        if h[0] == 'c':
            c = h[2][0]
            for i, p in enumerate(U):
                if p[0] == 'c':
                    for j in range(len(p[2])):
                        if p[2][j] != c:
                            continue
                        V = (C(p[2][j:]),) + U[i + 1:]
                        r, rest = self.prefix(V, pat)
                        if r is None:
                            return None
                        if r:
                            out.append((U[:i] + ((C(p[2][:j]),) if j else ()), rest))
                else:
                    pr = self.prop(p)
                    if c not in pr.no and not (pr.only is not None and c not in pr.only):
                        # a first character there; the next one may rule it out
                        if not (len(pat) == 1 and len(h[2]) > 1 and self._apart(U, i, h[2])):
                            return None
            return out
        if len(U) == 1 and U == tuple(pat):
            return [((), ())]
        return None

    def _apart(self, U, i, s):
        """No occurrence of the constant s touches piece i."""
        pr = self.prop(U[i])
        if pr.nosegs and s in ('/../',):
            # inside the piece impossible; at its borders?
            before = U[i - 1] if i else None
            after = U[i + 1] if i + 1 < len(U) else None
            if before is not None and before[0] == 'c' and not before[2].endswith(('/', '.')) or before is None:
                if after is None or after[0] == 'c' and not after[2].startswith(('/', '.')):
                    return True
        return all(c in pr.no for c in s[1:]) and len(s) > 1 and pr.max == 1 and False

    # -- comparisons of piece sequences

    def eat(self, U, P):
        """Remove the common prefix: (U', P')."""
        U, P = list(U), list(P)
        while U and P:
            u, p = U[0], P[0]
            if u == p:
                U.pop(0)
                P.pop(0)
                continue
            if u[0] == 'c' and p[0] == 'c':
                a, b = u[2], p[2]
                n = 0
                while n < len(a) and n < len(b) and a[n] == b[n]:
                    n += 1
                if n == 0:
                    break
                U[:1] = [C(a[n:])] if a[n:] else []
                P[:1] = [C(b[n:])] if b[n:] else []
                continue
            break
        return U, P

    def rev(self, parts):
        return [C(p[2][::-1]) if p[0] == 'c' else p for p in reversed(parts)]

    def headdiff(self, u, p, back=False):
        """Heads differ for certain at their first character (given both non-empty)."""
        pu, pp = self.prop(u), self.prop(p)
        if u[0] == 'c' and p[0] == 'c':
            return u[2][0] != p[2][0]
        for a, pa, b in ((u, pu, p), (p, pp, u)):
            if b[0] == 'c' and a[0] != 'c':
                no = pa.last_no if back else pa.first_no
                if pa.min >= 1 and b[2][0] in no:
                    return True
                if pa.min >= 1 and pa.only is not None and b[2][0] not in pa.only:
                    return True
        if u[0] != 'c' and p[0] != 'c' and pu.min == pu.max == pp.min == pp.max == 1:
            return p in pu.ne or u in pp.ne
        return False

    def minlen(self, parts):
        return sum(len(p[2]) if p[0] == 'c' else self.prop(p).min for p in parts)

    def maxlen(self, parts):
        return sum(len(p[2]) if p[0] == 'c' else self.prop(p).max for p in parts)

    def prefix(self, U, P, back=False):
        """Is P a prefix of U: (True|False|None, rest of U)."""
        if back:
            U, P = self.rev(U), self.rev(P)
        u, p = self.eat(U, P)
        rest = tuple(self.rev(u) if back else u)
        if not p or self.maxlen(p) == 0:
            return True, rest
        if not u:
            return (False, None) if self.minlen(p) > 0 else (None, None)
        if self.maxlen(u) < self.minlen(p):
            return False, None
        if self.no_prefix(tuple(u), tuple(p), back, 6):
            return False, None
        return None, None

    def no_prefix(self, u, p, back, n):
        """Certainly p is not a prefix of u (both possibly reversed)."""
        if not p:
            return False
        if not u:
            return self.minlen(p) > 0
        if n == 0:
            return False
        a, b = u[0], p[0]
        ea, eb = a[0] == 'c' or self.prop(a).min > 0, b[0] == 'c' or self.prop(b).min > 0
        if ea and eb:
            return self.headdiff(a, b, back)
        if not ea:
            # empty, or not
            if not self.no_prefix(tuple(u[1:]), p, back, n - 1):
                return False
            return b[0] == 'c' and b[2][0] in (self.prop(a).last_no if back else self.prop(a).first_no)
        if not self.no_prefix(u, tuple(p[1:]), back, n - 1):
            return False
        return a[0] == 'c' and a[2][0] in (self.prop(b).last_no if back else self.prop(b).first_no)

    def eq(self, a, b):
        """True / False / None."""
        A, B = self.parts(a), self.parts(b)
        if A is None or B is None:
            return None
        if a == b:
            return True
        u, p = self.eat(A, B)
        if not u and not p:
            return True
        if self.minlen(u) > self.maxlen(p) or self.minlen(p) > self.maxlen(u):
            return False
        if not u or not p:
            return False if self.minlen(u) + self.minlen(p) > 0 else None
        hd = (u[0][0] == 'c' or self.prop(u[0]).min) and (p[0][0] == 'c' or self.prop(p[0]).min)
        if hd and self.headdiff(u[0], p[0]):
            return False
        # from the end
        x, y = self.eat(self.rev(u), self.rev(p))
        if not x or not y:
            return False if self.minlen(x) + self.minlen(y) > 0 else (True if not x and not y else None)
        td = (x[0][0] == 'c' or self.prop(x[0]).min) and (y[0][0] == 'c' or self.prop(y[0]).min)
        if td and self.headdiff(x[0], y[0], True):
            return False
        for s, o in ((A, B), (B, A)):
            if len(s) == 1 and s[0][0] != 'c':
                pr = self.prop(s[0])
                if len(o) == 1 and o[0][0] == 'c' and (o[0][2] in pr.notconst or any(c in pr.no for c in o[0][2])):
                    return False
                if pr.nosegs and len(o) == 1 and o[0][0] == 'c' and '..' in o[0][2].split('/'):
                    return False
                if any(q[0] == 'c' and any(c in pr.no for c in q[2]) for q in o):
                    return False
        return None

    def contains(self, U, s):
        """Does U contain the constant s?"""
        if s == '':
            return True
        for p in U:
            if p[0] == 'c' and s in p[2]:
                return True
        if not U:
            return False
        sy = [p for p in U if p[0] != 'c']
        if not sy:
            return False
        if len(s) == 1:
            for p in sy:
                pr = self.prop(p)
                if s not in pr.no and not (pr.only is not None and s not in pr.only):
                    return None
            return False
        o = self.occ(U, (C(s),))
        if o is not None:
            return bool(o)
        # an occurrence would use a character of some piece, or join constants around an empty one
        for p in sy:
            pr = self.prop(p)
            if any(c not in pr.no for c in s):
                return None
        flat = ''.join(p[2] if p[0] == 'c' else ('' if self.prop(p).min == 0 else '\0') for p in U)
        return None if s in flat else False

    # -- lengths

    def lin(self, t):
        """Linear form ({piece: coefficient}, constant) of an integer term, or None."""
        if t[0] == 'c' and isinstance(t[2], int):
            return {}, t[2]
        if t[0] == 'len':
            P = self.parts(t[1])
            if P is None:
                return None
            d, n = {}, 0
            for p in P:
                if p[0] == 'c':
                    n += len(p[2])
                elif self.prop(p).min == self.prop(p).max:
                    n += self.prop(p).min
                else:
                    d[p] = d.get(p, 0) + 1
            return d, n
        if t[0] == 'bin' and t[1] in ('+', '-'):
            a, b = self.lin(t[2]), self.lin(t[3])
            if a is None or b is None:
                return None
            s = 1 if t[1] == '+' else -1
            d = dict(a[0])
            for k, v in b[0].items():
                d[k] = d.get(k, 0) + s * v
            return {k: v for k, v in d.items() if v}, a[1] + s * b[1]
        if t[0] == 'un' and t[1] in ('-', 'USub'):
            a = self.lin(t[2])
            return None if a is None else ({k: -v for k, v in a[0].items()}, -a[1])
        return None

    def lin_len(self, parts):
        return self.lin(('len', self.mk(parts))) if parts else ({}, 0)

    def term(self, l):
        t = C(l[1])
        for k, v in sorted(l[0].items(), key=repr):
            for _ in range(v):
                t = ('bin', '+', t, ('len', k))
        return t

    def bounds(self, l):
        lo = hi = l[1]
        for k, v in l[0].items():
            p = self.prop(k)
            lo += v * (p.min if v > 0 else p.max)
            hi += v * (p.max if v > 0 else p.min)
        return lo, hi

    def cut(self, parts, n):
        """Split after n (linear) characters: (left, right) or None."""
        d, c = dict(n[0]), n[1]
        left, right = [], list(parts)
        while d or c:
            if not right:
                return None
            h = right[0]
            if h[0] == 'c':
                k = len(h[2])
                if c >= k:
                    c -= k
                    left.append(right.pop(0))
                elif c > 0 and not d:
                    left.append(C(h[2][:c]))
                    right[0] = C(h[2][c:])
                    c = 0
                else:
                    return None
            else:
                p = self.prop(h)
                if p.min == p.max:
                    if c < p.min:
                        return None
                    c -= p.min
                elif d.get(h, 0) > 0:
                    d[h] -= 1
                    if not d[h]:
                        del d[h]
                else:
                    return None
                left.append(right.pop(0))
        return tuple(left), tuple(right)

    def cut_at(self, parts, n):
        r = self.cut(parts, n)
        if r is not None:
            return r
        L = self.lin_len(parts)
        if L is None:
            return None
        d = dict(L[0])
        for k, v in n[0].items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        r = self.cut(tuple(self.rev(parts)), (d, L[1] - n[1]))
        if r is None:
            return None
        return tuple(self.rev(r[1])), tuple(self.rev(r[0]))

    def position(self, parts, x):
        """Linear form of a slice bound (negative constants count from the end)."""
        n = self.lin(x)
        if n is None:
            return None
        lo, hi = self.bounds(n)
        if hi < 0:
            L = self.lin_len(parts)
            d = dict(L[0])
            for k, v in n[0].items():
                d[k] = d.get(k, 0) + v
            return {k: v for k, v in d.items() if v}, L[1] + n[1]
        if lo < 0:
            return None
        return n

    def slice(self, st, v, sl):
        P = self.parts(v)
        if P is None or (sl[2] is not None and sl[2] not in (NONE, C(1))):
            return None
        lo = None if sl[0] is None or sl[0] == NONE else sl[0]
        hi = None if sl[1] is None or sl[1] == NONE else sl[1]
        L = self.lin_len(P)
        mid = P
        if hi is not None:
            n = self.position(P, hi)
            if n is None:
                return None
            r = self.cut_at(P, n)
            if r is None:
                # beyond the end?
                if self.bounds(self._minus(n, L))[0] >= 0:
                    r = (P, ())
                else:
                    return None
            mid = r[0]
        if lo is not None:
            n = self.position(P, lo)
            if n is None:
                return None
            r = self.cut_at(mid, n)
            if r is None:
                if self.bounds(self._minus(n, self.lin_len(mid)))[0] >= 0:
                    return self.mk(())
                return None
            mid = r[1]
        return self.mk(mid)

    def _minus(self, a, b):
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) - v
        return {k: v for k, v in d.items() if v}, a[1] - b[1]

    # -- searching

    def find(self, parts, s, back=False):
        """Position pieces before the first (last) occurrence of the character s: parts tuple, False (absent) or None."""
        if len(s) != 1:
            o = self.occ(parts, (C(s),))
            if o is not None:
                return (o[-1] if back else o[0])[0] if o else False
            c = self.contains(parts, s)
            if c is False:
                return False
            if not back:
                for i, p in enumerate(parts):
                    if p[0] == 'c' and s in p[2]:
                        if self.contains(tuple(parts[:i]) + (C(p[2][:p[2].index(s) + len(s) - 1]),), s) is False:
                            j = p[2].index(s)
                            return tuple(parts[:i]) + ((C(p[2][:j]),) if j else ())
                        return None
            return None
        seq = list(enumerate(parts))
        if back:
            seq.reverse()
        for i, p in seq:
            if p[0] == 'c':
                j = p[2].rfind(s) if back else p[2].find(s)
                if j >= 0:
                    return tuple(parts[:i]) + ((C(p[2][:j]),) if j else ())
            else:
                pr = self.prop(p)
                if s not in pr.no and not (pr.only is not None and s not in pr.only):
                    return None
        return False

    def strip(self, parts, chars, left, right):
        parts = list(parts)
        for side in (0, 1):
            if not (left, right)[side]:
                continue
            while parts:
                i = 0 if side == 0 else -1
                p = parts[i]
                if p[0] == 'c':
                    q = p[2].lstrip(chars) if side == 0 else p[2].rstrip(chars)
                    if q == '':
                        parts.pop(i)
                        continue
                    parts[i] = C(q)
                    break
                pr = self.prop(p)
                no = pr.first_no if side == 0 else pr.last_no
                cs = chars if chars is not None else ' \t\n\r\x0b\x0c'
                if all(c in no for c in cs):
                    if pr.min >= 1:
                        break
                    rest = tuple(parts[1:] if side == 0 else parts[:-1])
                    if not rest or self.strip(rest, chars, side == 0, side == 1) == rest:
                        break          # empty or not: the same either way
                return None
        return tuple(parts)

    # -- hooks

    def bool_of(self, ip, st, r, what, node):
        if r is not None:
            return [(st, C(r))]
        a = st.copy()
        for s in (a, st):
            self.imprecise(s, what)
        return [(a, TRUE), (st, FALSE)]

    def compare(self, ip, st, op, a, b, neg, node):
        """Called by Interp.compare for == / != on strings."""
        if op == 'eq':
            if not (self.dom(a) or self.dom(b)):
                la, lb = self._len_like(a), self._len_like(b)
                if la is None or lb is None or not (la[0] or lb[0]):
                    return None
                lo, hi = self.bounds(self._minus(la, lb))
                if lo == hi == 0:
                    return [(st, C(not neg))]
                if lo > 0 or hi < 0:
                    return [(st, C(neg))]
                return None
            for x in (a, b):
                if x[0] in ('ref', 'tup', 'int', 'len') or x[0] == 'c' and not isinstance(x[2], str):
                    return [(st, C(neg))]
            r = self.eq(a, b)
            if r is not None:
                return [(st, C(r != neg))]
            s = st.copy()
            for x in (s, st):
                self.imprecise(x, 'comparison')
            return [(s, TRUE), (st, FALSE)]
        if op == 'lt':
            la, lb = self._len_like(a), self._len_like(b)
            if la is None or lb is None or not (la[0] or lb[0]):
                return None
            lo, hi = self.bounds(self._minus(la, lb))
            if hi < 0:
                return [(st, C(not neg))]
            if lo >= 0:
                return [(st, C(neg))]
            return None
        return None

    def _len_like(self, t):
        if t[0] in ('len', 'bin', 'un') or t[0] == 'c' and isinstance(t[2], int):
            return self.lin(t)
        return None

    def compare_in(self, ip, st, a, b, neg, node):
        o = ip.obj(st, b)
        if o is not None and o.items is None and '$split' in o.attrs and o.kind in ('list', 'set'):
            if any(self.eq(a, x) is True for x in o.must):
                return [(st, C(not neg))]
            if all(self.eq(a, x) is False for x in o.may):
                return [(st, C(neg))]
            return [(s, C((v == TRUE) != neg)) for s, v in self.bool_of(ip, st, None, 'in', node)]
        if not (self.dom(b) or self.dom(a)):
            return None
        B = self.parts(b) if b[0] in ('c', 'cat') or b in self.props else None
        if B is None:
            return None
        if a[0] == 'c' and isinstance(a[2], str):
            r = self.contains(B, a[2])
        else:
            A = self.parts(a)
            r = None
            if A is not None:
                if a == b or any(B[i:i + len(A)] == A for i in range(len(B))):
                    r = True
                elif self.minlen(A) > self.maxlen(B):
                    r = False
                elif self.occ(B, A) is not None:
                    r = bool(self.occ(B, A))
                else:
                    for i in range(len(B)):
                        if self.prefix(B[i:], A)[0] is True:
                            r = True
        if r is None:
            return self.bool_of(ip, st, None, 'in', node) if not neg else [(s, C(v == FALSE)) for s, v in self.bool_of(ip, st, None, 'in', node)]
        return [(st, C(r != neg))]

    def truth(self, v):
        """Truth of a string value or None."""
        P = self.parts(v)
        if P is None or not self.dom(v):
            return None
        if self.minlen(P) > 0:
            return True
        if self.maxlen(P) == 0:
            return False
        return None

    def unk(self, ip, st, what, node, typ='str'):
        self.imprecise(st, what)
        self.n += 1
        t = ('fresh', 'str:' + what, ip.site(st, node))
        if typ:
            ip.types[t] = typ
        return [(st, t)]

    def method(self, ip, st, name, recv, args, kws, node):
        m = name[1:]
        if recv is None:
            return None
        ex = None
        if m == 'join':
            if not args:
                return None
            ex = ip.exact_items(st, args[0])
            if ex is None:
                src = st.heap.get(args[0][1]) if args[0][0] == 'ref' else None
                if src is not None and src.attrs.get('$split') is not None and src.attrs['$split'][1][1] == recv:
                    return [(st, src.attrs['$split'][1][0])]
                return None
            if not any(self.dom(x) for x in ex) and not self.dom(recv):
                return None
            out = []
            for i, x in enumerate(ex):
                if i:
                    out.append(recv)
                out.append(x)
            return [(st, self.mk(out))]
        if not (self.dom(recv) or any(self.dom(a) for a in args)):
            return None
        U = self.parts(recv)
        if U is None:
            return None
        a0 = args[0] if args else None
        if m in ('startswith', 'endswith'):
            opts = [a0]
            if a0[0] == 'tup':
                opts = list(a0[1])
            rs = []
            for o in opts:
                P = self.parts(o)
                rs.append(None if P is None or len(args) > 1 else self.prefix(U, P, back=m == 'endswith')[0])
            r = True if True in rs else (None if None in rs else False)
            return self.bool_of(ip, st, r, m, node)
        if m in ('removeprefix', 'removesuffix'):
            back = m == 'removesuffix'
            r, rest = self.prefix(U, self.parts(a0) or (), back)
            if r is None:
                return self.unk(ip, st, m, node)
            return [(st, self.mk(rest) if r else recv)]
        if m in ('strip', 'rstrip', 'lstrip'):
            ch = None
            if a0 is not None and a0 != NONE:
                if a0[0] != 'c':
                    return self.unk(ip, st, m, node)
                ch = a0[2]
            r = self.strip(U, ch, m != 'rstrip', m != 'lstrip')
            return [(st, self.mk(r))] if r is not None else self.unk(ip, st, m, node)
        if m in ('find', 'index', 'rfind', 'rindex'):
            back = m[0] == 'r'
            if a0[0] == 'c' and len(args) == 1:
                r = self.find(U, a0[2], back)
            elif len(args) == 1 and not back and self.prefix(U, self.parts(a0) or ())[0] is True:
                r = ()
            else:
                o = self.occ(U, self.parts(a0) or ()) if len(args) == 1 else None
                r = None if o is None else ((o[-1] if back else o[0])[0] if o else False)
            if r is None:
                return self.unk(ip, st, m, node, None)
            if r is False:
                if m.endswith('index'):
                    ip.throw(st, 'builtins.ValueError', (), node)
                    return []
                return [(st, C(-1))]
            return [(st, self.term(self.lin_len(r)))]
        if m in ('partition', 'rpartition', 'split', 'rsplit'):
            return self.split(ip, st, m, recv, U, args, kws, node)
        if m == 'replace':
            if a0[0] == 'c' and self.contains(U, a0[2]) is False:
                return [(st, recv)]
            pat = self.parts(a0)
            rep = self.parts(args[1]) if len(args) > 1 else None
            mx = args[2][2] if len(args) > 2 and args[2][0] == 'c' else (BIG if len(args) < 3 else None)
            if pat and rep is not None and mx is not None:
                out, cur, n = [], U, 0
                while n < mx:
                    o = self.occ(cur, pat)
                    if o is None:
                        break
                    if not o:
                        return [(st, self.mk(out + list(cur)))]
                    out += list(o[0][0]) + list(rep)
                    cur = o[0][1]
                    n += 1
                else:
                    return [(st, self.mk(out + list(cur)))]
            return self.unk(ip, st, m, node)
        if m in ('lower', 'casefold', 'upper'):
            # a case-changed copy: another string
            return self.unk(ip, st, m, node)
        if m == 'count' and a0[0] == 'c' and self.contains(U, a0[2]) is False:
            return [(st, C(0))]
        return None

    def split(self, ip, st, m, recv, U, args, kws, node):
        sep = args[0] if args else kws.get('sep', NONE)
        if sep[0] != 'c' or not isinstance(sep[2], str):
            return self.unk(ip, st, m, node, None)
        s = sep[2]
        back = m[0] == 'r'
        mx = None
        if 'partition' in m:
            mx = 1
        elif len(args) > 1 or 'maxsplit' in kws:
            x = args[1] if len(args) > 1 else kws['maxsplit']
            if x[0] != 'c':
                return self.unk(ip, st, m, node, None)
            mx = x[2] if x[2] >= 0 else None
        out = []
        rest = tuple(U)
        exact = True
        while mx is None or len(out) < mx:
            r = self.find(rest, s, back)
            if r is False:
                break
            if r is None:
                exact = False
                break
            a, b = r, self.cut(rest, self.lin_len(r))[1]
            b = (C(b[0][2][len(s):]),) + tuple(b[1:]) if b[0][2][len(s):] else tuple(b[1:])
            if back:
                out.append(self.mk(b))
                rest = a
            else:
                out.append(self.mk(a))
                rest = b
        if not exact and mx is None and not back:
            # segments of unknown pieces: what is certain plus generic ones
            must, may, ns = set(out), set(out), True
            cur = []
            for p in rest:
                toks = [p] if p[0] != 'c' else []
                if p[0] == 'c':
                    sg = p[2].split(s)
                    for i, x in enumerate(sg):
                        if i:
                            self._seg(cur, must, may)
                            cur = []
                        if x:
                            cur.append(C(x))
                else:
                    if s not in self.prop(p).no:
                        cur.append(('any', p))
                    else:
                        cur.append(p)
            self._seg(cur, must, may)
            for p in rest:
                if p[0] != 'c' and s not in self.prop(p).no and not self.prop(p).nosegs:
                    ns = False
            g = ('p', 'segment of %s' % (recv,))
            self.props[g] = Piece(no=s, notconst=('..',) if ns and s == '/' else ())
            ip.types[g] = 'str'
            may.add(g)
            ref = ip.new_summary(st, node, frozenset(may), frozenset(must), ne=True)
            o = ip.obj(st, ref)
            st.heap[ref[1]] = o.setattr('$split', ('tup', (recv, sep)))
            return [(st, ref)]
        if not exact:
            return self.unk(ip, st, m, node, None)
        if 'partition' in m:
            if not out:
                t = (recv, C(''), C('')) if not back else (C(''), C(''), recv)
            else:
                t = (self.mk(rest), sep, out[0]) if back else (out[0], sep, self.mk(rest))
            return [(st, ('tup', t))]
        seq = [self.mk(rest)] + list(reversed(out)) if back else out + [self.mk(rest)]
        return [(st, ip.new_list(st, node, seq, tag='split'))]

    def _seg(self, cur, must, may):
        if any(p[0] == 'any' for p in cur):
            return
        t = self.mk(cur)
        must.add(t)
        may.add(t)

    # -- regular expressions

    def ident(self, ip, st, name, recv, args, kws, node):
        return None

    def re_call(self, ip, st, name, recv, args, kws, node):
        f = name[3:]
        if f == 'escape':
            if args and self.dom(args[0]):
                return [(st, ('call', 're.escape', (args[0],), ()))]
            return None
        pat = args[0] if args else kws.get('pattern', NONE)
        if f == 'compile':
            flags = args[1] if len(args) > 1 else kws.get('flags', C(0))
            if any(x in self.props for x in self._flat(pat)):
                return [(st, ip.alloc(st, node, Obj('ext', 're.Pattern', {'$pat': pat, '$flags': flags}), 'pat'))]
            if pat[0] == 'c':
                return [(st, ip.alloc(st, node, Obj('ext', 're.Pattern', {'$pat': pat, '$flags': flags}), 'pat'))]
            return None
        i = 1
        repl = None
        if f == 'sub':
            repl = args[1] if len(args) > 1 else kws.get('repl', NONE)
            i = 2
        s = args[i] if len(args) > i else kws.get('string', NONE)
        rest = args[i + 1:]
        flags = kws.get('flags', rest[0] if rest and f != 'sub' else C(0))
        return self.do_re(ip, st, f, pat, repl, s, flags, node)

    def pattern_method(self, ip, st, name, recv, args, kws, node):
        o = ip.obj(st, recv)
        f = name.split('.')[-1]
        repl = None
        i = 0
        if f == 'sub':
            repl = args[0]
            i = 1
        return self.do_re(ip, st, f, o.attrs['$pat'], repl, args[i], o.attrs.get('$flags', C(0)), node)

    def _flat(self, t):
        if t[0] == 'cat':
            out = []
            for p in t[1]:
                out += self._flat(p)
            return out
        if t[0] == 'call' and t[1] == 're.escape':
            return self._flat(t[2][0])
        return [t]

    def do_re(self, ip, st, f, pat, repl, s, flags, node):
        if s == NONE:
            ip.throw(st, 'builtins.TypeError', (), node)
            return []
        flat = self._flat(pat)
        if not self.dom(s) and not any(x in self.props for x in flat):
            return None
        U = self.parts(s)
        P = self.parts(pat) if pat[0] != 'call' else (pat,)
        if U is None or P is None:
            return self.unk(ip, st, 're', node, None)
        if any(p in self.props for p in P):
            # an unknown string used as a regular expression: it may match or not, whatever the strings are
            if f in ('match', 'search', 'fullmatch'):
                g = self.sym('<matched by an unescaped pattern>')
                o = Obj('ext', 're.Match', {'$groups': ('tup', (s,) + (g,) * 4), '$named': NONE})
                a = st.copy()
                return [(a, ip.alloc(a, node, o, 'match')), (st, NONE)]
            g = self.sym('<result of an unescaped pattern>')
            return [(st, g)]
        # literals of escaped pieces as private characters
        lits = {}
        txt = ''
        for p in P:
            if p[0] == 'c':
                txt += p[2]
            elif p[0] == 'call' and p[1] == 're.escape':
                for q in (self.parts(p[2][0]) or ()):
                    if q[0] == 'c':
                        txt += _re.escape(q[2])
                    else:
                        c = chr(P0 + len(lits))
                        lits[c] = q
                        txt += c
            else:
                return self.unk(ip, st, 're', node, None)
        fl = flags[2] if flags[0] == 'c' and isinstance(flags[2], int) else None
        if fl is None:
            fl = 16 if 'DOTALL' in repr(flags) or 're.S' in repr(flags) else 0
            if 'IGNORECASE' in repr(flags) or "'re.I'" in repr(flags):
                return self.unk(ip, st, 're', node, None)
        self.dotall = bool(fl & 16)
        try:
            tree = sre.parse(txt, 0)
            if tree.state.flags & 16:
                self.dotall = True
            if tree.state.flags & (2 | 8):
                return self.unk(ip, st, 're', node, None)
        except Exception:
            ip.throw(st, 're.error', (), node)
            return []
        if f == 'sub':
            return self.do_sub(ip, st, tree, lits, U, s, repl, node)
        if f not in ('match', 'search', 'fullmatch'):
            return self.unk(ip, st, 're.' + f, node, None)
        r = self.run(tree, lits, U, f)
        ngr = tree.state.groups
        if r is None:
            a = st.copy()
            for x in (a, st):
                self.imprecise(x, 're.' + f)
            o = Obj('ext', 're.Match', {'$groups': ('tup', (('fresh', 'group', ()),) * ngr), '$named': NONE})
            return [(a, ip.alloc(a, node, o, 'match')), (st, NONE)]
        if r is False:
            return [(st, NONE)]
        whole, groups = r
        gs = [self.mk(whole)] + [self.mk(groups[i]) if i in groups else NONE for i in range(1, ngr)]
        named = ('tup', tuple(('tup', (C(k), C(v))) for k, v in tree.state.groupdict.items()))
        o = Obj('ext', 're.Match', {'$groups': ('tup', tuple(gs)), '$named': named})
        return [(st, ip.alloc(st, node, o, 'match'))]

    def run(self, tree, lits, U, f):
        """(matched pieces, groups), False or None."""
        starts = [0]
        if f == 'search':
            nodes = list(tree)
            if not (nodes and nodes[0][0] is sc.AT and nodes[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING)):
                # a leading literal character decides where the match may start
                x = self.search(nodes, lits, U)
                return x
        ms = list(self.m(list(tree), lits, list(U), {}, True))
        for st_, rest, groups in ms:
            if f == 'fullmatch' and rest:
                if self.maxlen(rest) == 0:
                    pass
                elif self.minlen(rest) > 0:
                    continue
                else:
                    return None
            if st_ == 'maybe':
                return None
            n = len(U) - len(rest)
            return (tuple(U) if not rest else self.left_of(U, rest), groups)
        return False

    def left_of(self, U, rest):
        r = self.cut(tuple(self.rev(U)), self.lin_len(tuple(rest)))
        return tuple(self.rev(r[1])) if r else tuple(U)

    def search(self, nodes, lits, U):
        maybe = False
        for i in range(len(U)):
            p = U[i]
            offs = range(len(p[2])) if p[0] == 'c' else [0]
            for j in offs:
                V = ([C(p[2][j:])] if p[0] == 'c' else [p]) + list(U[i + 1:])
                for st_, rest, groups in self.m(nodes, lits, V, {}, i == 0 and j == 0):
                    if st_ == 'yes' and not maybe:
                        return (self.left_of(V, rest), groups)
                    maybe = True
                    break
            if p[0] != 'c':
                # may start inside the piece?
                fs = self.first_chars(nodes)
                pr = self.prop(p)
                if pr.max == 1:
                    continue
                if fs is None or any(c not in pr.no for c in fs):
                    if not (pr.nosegs and all(n[0] is sc.LITERAL for n in nodes if n[0] is not sc.AT)):
                        maybe = True
        for st_, rest, groups in self.m(nodes, lits, [], {}, not U):
            maybe = True
        return None if maybe else False

    def first_chars(self, nodes):
        for op, av in nodes:
            if op is sc.LITERAL:
                return {chr(av)}
            if op is sc.SUBPATTERN:
                return self.first_chars(av[-1])
            if op is sc.AT:
                continue
            if op is sc.IN and all(o is sc.LITERAL for o, _ in av):
                return {chr(v) for _, v in av}
            return None
        return None

    def cls(self, av):
        """(negated, characters) of a simple class, or None."""
        neg = False
        cs = set()
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                cs.add(chr(v))
            elif o is sc.RANGE:
                if v[1] - v[0] > 300:
                    return None
                cs.update(chr(x) for x in range(v[0], v[1] + 1))
            else:
                return None
        return neg, cs

    def one(self, node, lits, parts):
        """Match one single-character node at the head: list of (status, rest)."""
        op, av = node
        if op is sc.LITERAL and chr(av) in lits:
            lit = lits[chr(av)]
            if parts and parts[0] == lit:
                return [('yes', parts[1:])]
            if not parts:
                return [] if self.prop(lit).min else [('maybe', parts)]
            r = self.prefix(tuple(parts), (lit,))
            if r[0] is False:
                return []
            if r[0] is True:
                return [('yes', list(r[1]))]
            return [('maybe', parts)]
        if not parts:
            return []
        h = parts[0]
        if h[0] == 'c':
            c = h[2][0]
            ok = self.char_ok(node, c)
            rest = ([C(h[2][1:])] if h[2][1:] else []) + parts[1:]
            return [('maybe' if ok is None else 'yes', rest)] if ok or ok is None else []
        pr = self.prop(h)
        if pr.min == 0:
            return [('maybe', parts)]
        if op is sc.ANY:
            return [('yes' if self.dotall or '\n' in pr.no else 'maybe', parts[1:])] if pr.max == 1 else [('maybe', parts)]
        if op in (sc.LITERAL, sc.NOT_LITERAL):
            c = chr(av)
            out = c in pr.first_no or (pr.only is not None and c not in pr.only)
            if op is sc.LITERAL:
                return [] if out else [('maybe', parts[1:])]
            if out and pr.max == 1:
                return [('yes', parts[1:])]
            return [('maybe', parts[1:])]
        if op is sc.IN:
            k = self.cls(av)
            if k is not None:
                neg, cs = k
                allno = all(c in pr.first_no for c in cs)
                if allno and not neg:
                    return []
                if allno and neg and pr.max == 1:
                    return [('yes', parts[1:])]
            return [('maybe', parts[1:])]
        return [('maybe', parts)]

    def char_ok(self, node, c):
        op, av = node
        if op is sc.ANY:
            return self.dotall or c != '\n'
        if op is sc.LITERAL:
            return chr(av) == c
        if op is sc.NOT_LITERAL:
            return chr(av) != c
        if op is sc.IN:
            k = self.cls(av)
            if k is None:
                # categories
                neg, ok = False, False
                for o, v in av:
                    if o is sc.NEGATE:
                        neg = True
                    elif o is sc.LITERAL:
                        ok = ok or chr(v) == c
                    elif o is sc.RANGE:
                        ok = ok or v[0] <= ord(c) <= v[1]
                    elif o is sc.CATEGORY:
                        t = {sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W', sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
                             sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S'}.get(v)
                        if t is None:
                            return None
                        ok = ok or bool(_re.match(t, c))
                return ok != neg
            return (c in k[1]) != k[0]
        return None

    def absorbs(self, node, p):
        """Does a single-character node match every character of piece p? True / False (not all) / None."""
        op, av = node
        if p[0] == 'c':
            r = [self.char_ok(node, c) for c in p[2]]
            return True if all(x is True for x in r) else (None if None in r else False)
        pr = self.prop(p)
        if op is sc.ANY:
            return True if self.dotall or '\n' in pr.no else None
        if op is sc.NOT_LITERAL:
            return True if chr(av) in pr.no else None
        if op is sc.IN:
            k = self.cls(av)
            if k is None:
                return None
            neg, cs = k
            if neg:
                return True if all(c in pr.no for c in cs) else None
            if pr.only is not None and pr.only <= cs:
                return True
            if all(c in pr.no for c in cs):
                return False
            return None
        if op is sc.LITERAL:
            c = chr(av)
            return False if c in pr.no else None
        return None

    def m(self, nodes, lits, parts, groups, begin):
        """Backtracking match: yields (status, rest, groups) in priority order."""
        if not nodes:
            yield ('yes', parts, groups)
            return
        op, av = nodes[0]
        tail = nodes[1:]
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if begin:
                    for x in self.m(tail, lits, parts, groups, begin):
                        yield x
                return
            if av in (sc.AT_END, sc.AT_END_STRING):
                if not parts or self.maxlen(parts) == 0:
                    for x in self.m(tail, lits, parts, groups, begin):
                        yield x
                elif self.minlen(parts) == 0:
                    for s, r, g in self.m(tail, lits, parts, groups, begin):
                        yield ('maybe', r, g)
                return
            for s, r, g in self.m(tail, lits, parts, groups, begin):
                yield ('maybe', r, g)
            return
        if op is sc.SUBPATTERN:
            num, sub = av[0], av[-1]
            for s, r, g in self.m(list(sub), lits, parts, groups, begin):
                g2 = dict(g)
                if num is not None:
                    g2[num] = self.between(parts, r)
                for s2, r2, g3 in self.m(tail, lits, r, g2, begin and r is parts):
                    yield ('yes' if s == s2 == 'yes' else 'maybe', r2, g3)
            return
        if op is sc.BRANCH:
            for alt in av[1]:
                for x in self.m(list(alt) + tail, lits, parts, groups, begin):
                    yield x
            return
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] in (sc.ANY, sc.NOT_LITERAL, sc.IN, sc.LITERAL) and hi is sc.MAXREPEAT \
                    and not (sub[0][0] is sc.LITERAL and chr(sub[0][1]) in lits):
                cands = []
                cur = list(parts)
                done = 0            # characters matched for certain
                status = 'yes'
                cands.append((done, list(cur), status))
                while cur:
                    h = cur[0]
                    if h[0] == 'c':
                        ok = self.char_ok(sub[0], h[2][0])
                        if not ok:
                            if ok is None:
                                cands.append((done, list(cur), 'maybe'))
                            break
                        cur = ([C(h[2][1:])] if h[2][1:] else []) + cur[1:]
                        done += 1
                    else:
                        a = self.absorbs(sub[0], h)
                        if a is None:
                            cands.append((done, list(cur), 'maybe'))
                            break
                        if a is False:
                            break
                        cur = cur[1:]
                        done += self.prop(h).min
                    cands.append((done, list(cur), status))
                order = list(reversed(cands)) if op is sc.MAX_REPEAT else cands
                for d, rest, s in order:
                    if d < lo:
                        s = 'maybe' if d + BIG > lo and any(p[0] != 'c' for p in parts) else None
                        if s is None:
                            continue
                        if lo <= 1 and d == 0 and rest == list(parts):
                            continue
                    for s2, r, g in self.m(tail, lits, rest, groups, begin and not d):
                        yield ('yes' if s == s2 == 'yes' else 'maybe', r, g)
                return
            if hi == 1 and lo == 0:
                a = self.m(sub + tail, lits, parts, groups, begin)
                b = self.m(tail, lits, parts, groups, begin)
                for x in (a, b) if op is sc.MAX_REPEAT else (b, a):
                    for y in x:
                        yield y
                return
            if lo == hi and hi is not sc.MAXREPEAT and hi < 10:
                for x in self.m(sub * hi + tail, lits, parts, groups, begin):
                    yield x
                return
            for s, r, g in self.m(tail, lits, parts, groups, begin):
                yield ('maybe', r, g)
            return
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            for s, r in self.one(nodes[0], lits, parts):
                for s2, r2, g in self.m(tail, lits, r, groups, False):
                    yield ('yes' if s == s2 == 'yes' else 'maybe', r2, g)
            return
        yield ('maybe', parts, groups)

    def between(self, parts, rest):
        return self.left_of(parts, rest) if rest else tuple(parts)

    def match_method(self, ip, st, name, recv, args, kws, node):
        o = ip.obj(st, recv)
        gs = o.attrs['$groups'][1]
        m = name.split('.')[-1]
        if m == 'groups':
            d = args[0] if args else NONE
            return [(st, ('tup', tuple(d if g == NONE else g for g in gs[1:])))]
        if m in ('group', '__getitem__'):
            if not args:
                return [(st, gs[0])]
            out = []
            for a in args:
                if a[0] == 'c' and isinstance(a[2], str):
                    nm = o.attrs.get('$named', NONE)
                    k = [x[1][1] for x in (nm[1] if nm != NONE else ()) if x[1][0] == a]
                    a = k[0] if k else C(99)
                if a[0] != 'c' or not (0 <= a[2] < len(gs)):
                    ip.throw(st, 'builtins.IndexError', (), node)
                    return []
                out.append(gs[a[2]])
            return [(st, out[0] if len(out) == 1 else ('tup', tuple(out)))]
        if m == 'end' and (not args or args[0] == C(0)):
            w = self.parts(gs[0])
            return [(st, self.term(self.lin_len(w)))] if w is not None else None
        return self.unk(ip, st, 'match.' + m, node, None)

    def do_sub(self, ip, st, tree, lits, U, s, repl, node):
        nodes = list(tree)
        if nodes and nodes[0][0] is sc.AT and nodes[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            r = self.run(tree, lits, U, 'match')
            if r is False:
                return [(st, s)]
            if r is not None and repl[0] == 'c' and '\\' not in repl[2] or r is not None and repl[0] != 'c' and self.parts(repl) is not None:
                rest = self.cut(U, self.lin_len(r[0]))
                if rest is not None:
                    return [(st, self.mk((repl,) + tuple(rest[1])))]
            return self.unk(ip, st, 're.sub', node)
        if self.search(nodes, lits, U) is False:
            return [(st, s)]
        # trailing characters:  x+$ , x$
        if len(nodes) == 2 and nodes[1][0] is sc.AT and nodes[0][0] is sc.MAX_REPEAT and repl == C(''):
            k = nodes[0][1][2][0]
            if k[0] is sc.LITERAL and chr(k[1]) not in lits and nodes[0][1][1] is sc.MAXREPEAT:
                q = self.strip(U, chr(k[1]), False, True)
                if q is not None:
                    return [(st, self.mk(q))]
        return self.unk(ip, st, 're.sub', node)

    # -- paths and urls

    def path_const(self, ip, st, f, vals, node):
        """The functions of constant paths; of absolute ones where the current directory matters."""
        import posixpath
        if not vals or not all(v[0] == 'c' and isinstance(v[2], str) for v in vals):
            return None
        w = [v[2] for v in vals]
        if f in ('abspath', 'realpath', 'relpath') and not all(x.startswith('/') for x in w):
            return None
        if f == 'relpath' and len(w) != 2 or f == 'expanduser':
            return None
        g = 'normpath' if f in ('abspath', 'realpath') else f
        try:
            r = getattr(posixpath, g)(w) if f in ('commonpath', 'commonprefix') else getattr(posixpath, g)(*w)
        except ValueError:
            ip.throw(st, 'builtins.ValueError', (), node)
            return []
        return [(st, ('tup', tuple(C(x) for x in r)) if isinstance(r, tuple) else C(r))]

    def path(self, ip, st, name, recv, args, kws, node):
        f = name.rsplit('.', 1)[1]
        vals = list(args)
        if f in ('commonpath', 'commonprefix'):
            ex = ip.exact_items(st, args[0])
            if ex is None:
                return None
            vals = list(ex)
        if not any(self.dom(v) for v in vals):
            return self.path_const(ip, st, f, vals, node)
        ps = [self.parts(v) for v in vals]
        if any(p is None for p in ps):
            return self.unk(ip, st, f, node)
        if f in ('abspath', 'realpath', 'normpath', 'normcase', 'expanduser'):
            t = self.abs.get(vals[0])
            if t is not None and f in ('abspath', 'realpath'):
                return [(st, t)]
            if f in ('normcase', 'expanduser'):
                return [(st, vals[0])]
            if self.is_norm(ps[0]):
                q = self.strip(ps[0], '/', False, True)
                return [(st, self.mk(q) if q else C('/'))]
            return self.unk(ip, st, f, node)
        if f in ('dirname', 'basename', 'split'):
            r = self.find(ps[0], '/', True)
            if r is None:
                return self.unk(ip, st, f, node)
            if r is False:
                d, b = (), ps[0]
            else:
                tail = self.cut(ps[0], self.lin_len(r))[1]
                b = ((C(tail[0][2][1:]),) if tail[0][2][1:] else ()) + tuple(tail[1:])
                d = self.strip(r, '/', False, True)
                if d is None:
                    return self.unk(ip, st, f, node)
                if not d:
                    d = r + (C('/'),)
            if f == 'split':
                return [(st, ('tup', (self.mk(d), self.mk(b))))]
            return [(st, self.mk(d if f == 'dirname' else b))]
        if f == 'isabs':
            return self.bool_of(ip, st, self.prefix(ps[0], (C('/'),))[0], f, node)
        if f == 'join':
            out = list(ps[0])
            for q in ps[1:]:
                r = self.prefix(q, (C('/'),))[0]
                if r is None:
                    return self.unk(ip, st, f, node)
                if r:
                    out = list(q)
                    continue
                if out:
                    e = self.prefix(tuple(out), (C('/'),), back=True)[0]
                    if e is None:
                        return self.unk(ip, st, f, node)
                    if not e:
                        out.append(C('/'))
                out = list(self.parts(self.mk(out + list(q))))
            return [(st, self.mk(out))]
        if f in ('commonpath', 'commonprefix') and len(ps) == 1:
            return [(st, vals[0])]
        if f in ('commonpath', 'commonprefix') and len(ps) == 2:
            a, b = ps
            if f == 'commonpath':
                ab = [self.prefix(z, (C('/'),))[0] if z else False for z in ps]
                if True in ab and False in ab:
                    ip.throw(st, 'builtins.ValueError', (), node)
                    return []
            x, y = self.eat(a, b)
            common = self.left_of(a, x) if x else tuple(a)
            sure = (not x or not y or self.headdiff(x[0], y[0]) and (x[0][0] == 'c' or self.prop(x[0]).min)
                    and (y[0][0] == 'c' or self.prop(y[0]).min))
            if not sure:
                return self.unk(ip, st, f, node)
            if f == 'commonprefix':
                return [(st, self.mk(common))]
            ends = [not z or z[0][0] == 'c' and z[0][2][0] == '/' for z in (x, y)]
            if all(ends):
                q = self.strip(common, '/', False, True)
                return [(st, self.mk(q) if q else C('/'))]
            r = self.find(common, '/', True)
            if r is None or r is False:
                return self.unk(ip, st, f, node)
            return [(st, self.mk(r) if r else C('/'))]
        if f == 'relpath' and len(ps) == 2:
            r, rest = self.prefix(ps[0], ps[1])
            if r is True:
                q = self.strip(rest, '/', True, False)
                if rest and self.prefix(rest, (C('/'),))[0] is True and q is not None:
                    return [(st, self.mk(q))]
                if not rest:
                    return [(st, C('.'))]
            return self.unk(ip, st, f, node)
        return self.unk(ip, st, f, node)

    def is_norm(self, parts):
        """Absolute path without '//', '.' or '..' segments for certain."""
        if not parts or self.prefix(parts, (C('/'),))[0] is not True:
            return False
        seg = []
        segs = []
        for p in parts:
            if p[0] == 'c':
                xs = p[2].split('/')
                for i, x in enumerate(xs):
                    if i:
                        segs.append(seg)
                        seg = []
                    if x:
                        seg.append(C(x))
            else:
                seg.append(p)
        segs.append(seg)
        for i, s in enumerate(segs):
            if not s:
                if i in (0, len(segs) - 1):
                    continue
                return False
            if len(s) == 1 and s[0][0] == 'c':
                if s[0][2] in ('.', '..'):
                    return False
            elif len(s) == 1:
                if not self.prop(s[0]).norm:
                    return False
            else:
                for p in s:
                    if p[0] != 'c' and not self.prop(p).norm and '/' not in self.prop(p).no:
                        return False
        return True

    def urlparse(self, ip, st, name, recv, args, kws, node):
        u = args[0] if args else kws.get('url', NONE)
        r = self.urls.get(u)
        if r is None:
            if self.dom(u):
                return self.unk(ip, st, 'urlparse', node, None)
            if u[0] != 'c' or not isinstance(u[2], str):
                return None
            from urllib.parse import urlparse
            r = tuple(C(x) for x in urlparse(u[2]))
        names = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
        if name.endswith('urlsplit'):
            names = ['scheme', 'netloc', 'path', 'query', 'fragment']
            r = r[:3] + r[4:]
        attrs = dict(zip(names, r))

        attrs['hostname'] = attrs['port'] = ('fresh', 'urlparse', ip.site(st, node))
        if r[1][0] == 'c':
            from urllib.parse import urlparse
            try:
                p = urlparse('http://' + r[1][2])
                attrs['hostname'], attrs['port'] = C(p.hostname), C(p.port)
            except ValueError:
                pass
        return [(st, ip.alloc(st, node, Obj('nt', None, attrs, tuple(r)), 'url'))]
