"""Driver programs: small pieces of Python source, analysed together with the
library's source by the interpreter, that put the library's classes into a
chosen abstract situation and return what can be observed."""
import ast
import textwrap

from .state import C, NONE, State, Obj, mk_eq, show, TRUE, FALSE
from .interp import Interp
from .model import ModuleInfo
from . import stubs
from .strdom import StrDom
from . import ext as X

PRE = '''
from resync.resource import Resource, ChangeTypeError
from resync.resource_container import ResourceContainer
from resync.resource_list import ResourceList, ResourceListDict, ResourceListOrdered, ResourceListDupeError
from resync.resource_set import ResourceSet, ResourceSetDupeError
from resync.capability_list import CapabilityList, CapabilitySet
from resync.source_description import SourceDescription
from resync.change_list import ChangeList
from resync.resource_dump import ResourceDump
from resync.resource_dump_manifest import ResourceDumpManifest
from resync.change_dump import ChangeDump
from resync.change_dump_manifest import ChangeDumpManifest
from resync.sitemap import Sitemap, SitemapIndexError, SitemapParseError, SitemapDupeError
from resync.list_base import ListBase
from resync.list_base_with_index import ListBaseWithIndex, ListBaseIndexError
from resync.mapper import Mapper, MapperError
from resync.dump import Dump, DumpError
from rsastub import LOG, FILES, PAGES, FAIL, FULL, NOLENGTH, SIZES, DIRS, LINKS, NOREAD, Element, ElementTree, Markup, File, open_file
'''


class Driver(object):

    def __init__(self, prog, source, name='driver', strings=False, budget=60000, recency=24, pre=PRE, paths=False, subst=()):
        self.prog = prog
        stubs.install(prog)
        key = 'driver:' + name
        if key not in prog.modules or prog.modules[key].source != pre + source:
            m = ModuleInfo(key, key, key, pre + textwrap.dedent(source))
            m.source = pre + source
            prog.modules[key] = m
            for k in [k for k in prog.functions if k.startswith(key + '.')]:
                del prog.functions[k]
            prog._collect(m)
            for c in [c for k, c in prog.classes.items() if k.startswith(key + '.')]:
                c.finish(prog)
        self.key = key
        self.ip = Interp(prog, budget=budget)
        self.ip.recency = recency
        self.ip.rec_depth = 7
        self.ip.keep_paths = paths
        self.ip.intercepts.update(stubs.HOOKS)
        self.ip.strict = bool(subst)
        for m in subst:
            self.ip.subst.update(m)
        self.d = StrDom(self.ip) if strings else None

    def sym(self, name, typ=None, some=False, st=None):
        """An unknown input."""
        t = ('p', name)
        if typ:
            self.ip.types[t] = typ
        return t

    def value(self, st, name, typ='str', other=()):
        """An unknown value that is there and not empty."""
        t = self.sym(name, typ)
        st.learn(('isnone', t), False)
        if typ == 'int':
            stubs.present(st, ('call', 'builtins.str', (t,), ()))
        if typ == 'str':
            st.learn(('truth', t), True)
            for x in ('',) + tuple(other):
                st.learn(mk_eq(t, C(x)), False)
        return t

    def state(self):
        st = State()
        st.auto = ()
        return st

    def build(self, st, x):
        """Value of a Python structure whose leaves are terms."""
        if isinstance(x, list):
            items = [self.build(st, y) for y in x]
            i = ('@', 'in', len(st.heap), 'new')
            st.heap[i] = Obj('list', items=tuple(items))
            return ('ref', i)
        if isinstance(x, dict):
            items = tuple((C(k) if not isinstance(k, tuple) else k, self.build(st, v), True) for k, v in x.items())
            i = ('@', 'in', len(st.heap), 'new')
            st.heap[i] = Obj('dict', items=items)
            return ('ref', i)
        if is_term(x):
            return x
        if isinstance(x, tuple):
            return ('tup', tuple(self.build(st, y) for y in x))
        return C(x)

    def call(self, fn, args, st=None, kws=None):
        """(returns [(state, term)], raises [(state, exception)])"""
        st = st or self.state()
        fi = self.prog.functions[self.key + '.' + fn]
        a = [self.build(st, x) for x in args]
        return self.ip.run(fi, None, a, {k: self.build(st, v) for k, v in (kws or {}).items()}, st)

    def plain(self, st, v, depth=0):
        """Nested tuples of terms for lists and tuples, dict for dictionaries."""
        if depth > 8:
            return v
        if v[0] == 'tup':
            return tuple(self.plain(st, x, depth + 1) for x in v[1])
        if v[0] == 'c' and isinstance(v[2], (tuple, list)):
            return tuple(C(x) for x in v[2])
        o = self.ip.obj(st, v)
        if o is not None:
            if o.kind in ('list', 'tuple', 'nt', 'deque') and o.items is not None:
                return tuple(self.plain(st, x, depth + 1) for x in o.items)
            if o.kind == 'set' and o.items is not None:
                return frozenset(self.plain(st, x, depth + 1) for x in o.items)
            if o.kind == 'dict' and not o.may and all(m for _, _, m in o.items):
                return {k: self.plain(st, x, depth + 1) for k, x, _ in o.items}
            return ('unknown object', o.kind, o.cls)
        return v


def match(S, st, got, want, path='result'):
    """None if got is want, else (text, certain)."""
    if isinstance(want, Pred):
        return want(S, st, got, path)
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s is %s' % (path, texts(got)), known(got)
        for k in want:
            kk = k if isinstance(k, tuple) else C(k)
            if kk not in got:
                return '%s lacks %s' % (path, show(kk)), True
            r = match(S, st, got[kk], want[k], '%s[%s]' % (path, show(kk)))
            if r:
                return r
        for k in got:
            if k not in want and not (k[0] == 'c' and k[2] in want):
                return '%s has the extra entry %s' % (path, show(k)), True
        return None
    if isinstance(want, frozenset) and isinstance(got, (frozenset, tuple)) and not is_term(got):
        if frozenset(got) == want:
            return None
        return '%s is %s instead of %s' % (path, texts(got), texts(want)), True
    if isinstance(want, (tuple, list)) and not is_term(want):
        if not isinstance(got, tuple) or is_term(got):
            return '%s is %s instead of %s' % (path, texts(got), texts(want)), known(got)
        if len(got) != len(want):
            return '%s is %s instead of %s' % (path, texts(got), texts(want)), True
        for i, (a, b) in enumerate(zip(got, want)):
            r = match(S, st, a, b, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    w = want if is_term(want) else C(want)
    if got == w:
        return None
    if isinstance(got, (dict, frozenset)) or not is_term(got):
        return '%s is %s instead of %s' % (path, texts(got), show(w)), True
    if got[0] == 'c' and w[0] == 'c':
        if type(got[2]) == type(w[2]) or isinstance(got[2], (int, float)) and isinstance(w[2], (int, float)):
            if got[2] == w[2] and not (isinstance(got[2], bool) != isinstance(w[2], bool)):
                return None
        return '%s is %s instead of %s' % (path, show(got), show(w)), True
    if S.d is not None and got[0] in ('c', 'cat', 'p') and w[0] in ('c', 'cat', 'p') and (S.d.dom(got) or S.d.dom(w)):
        r = S.d.eq(got, w)
        if r is True:
            return None
        return '%s is %s instead of %s' % (path, show(got), show(w)), r is False
    if st.decide(mk_eq(got, w)) is True:
        return None
    return '%s is %s instead of %s' % (path, show(got), show(w)), got[0] not in ('fresh',)


class Pred(object):
    def __init__(self, text, fn):
        self.text = text
        self.fn = fn

    def __call__(self, S, st, got, path):
        r = self.fn(S, st, got)
        if r is True:
            return None
        return '%s is %s instead of %s' % (path, texts(got), self.text), r is False


KINDS = frozenset(('c', 'p', 'attr', 'elem', 'call', 'meth', 'bin', 'un', 'idx', 'len', 'cat', 'pred', 'int', 'fresh', 'ref', 'fn', 'cls',
                   'mod', 'ext', 'bm', 'tup', 'exc', 'sum', 'fmt', 'clo', 'unknown object'))


def is_term(x):
    return isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str) and x[0] in KINDS


def known(x):
    return not (is_term(x) and x[0] in ('fresh', 'unknown object'))


def texts(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (show(k), texts(v)) for k, v in x.items())
    if isinstance(x, frozenset):
        return '{%s}' % ', '.join(sorted(texts(v) for v in x))
    if is_term(x):
        return show(x)
    if isinstance(x, (tuple, list)):
        return '[%s]' % ', '.join(texts(v) for v in x)
    if isinstance(x, Pred):
        return x.text
    return repr(x)


def imprecise(st):
    return dict(st.auto or ()).get('imprecise')


def judge(rep, S, R, fn, case, group, rets, raises, want, error=None):
    """Every path returns `want`; or, with `error` (a set of class names), every path raises one of them.
    group is the obligation recorded; case the particular situation."""
    n = 0
    for st, v in rets:
        n += 1
        if error is not None:
            r = ('gives %s instead of an error' % texts(S.plain(st, v)), True)
        else:
            r = match(S, st, S.plain(st, v), want)
        note(rep, S, R, fn, case, group, st, r)
    for st, e in raises:
        n += 1
        o = S.ip.obj(st, e)
        name = e[1] if e[0] == 'exc' else (o.cls if o is not None else show(e))
        if error is not None and any(X.exc_is(S.prog, name, x) for x in error):
            r = None
        else:
            r = ('raises %s%s' % (name, '(%s)' % ', '.join(show(a) for a in e[2]) if e[0] == 'exc' else ''), e[0] == 'exc' or o is not None)
        note(rep, S, R, fn, case, group, st, r)
    if not n:
        rep.undecided(R, case, 'no path')
    return n


def note(rep, S, R, fn, case, group, st, r):
    if r is None:
        rep.hold(R, group)
    elif not r[1] or imprecise(st) is not None:
        rep.undecided(R, case, '%s (%s)' % (r[0], imprecise(st) or 'not decided'))
    else:
        rep.fail(R, fn, group, '%s: %s' % (case, r[0]), '', st.path())
