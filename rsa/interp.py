"""Path-sensitive abstract interpreter over the syntax of the analysed program.

States are merged when environment (restricted to live variables), reachable
heap and rule automaton agree; loops over unknown collections are run to a
fixpoint with one 'current' and one summary 'earlier' element. Nothing of the
analysed program is executed: values are provenance terms (state.py).
"""
import ast
import builtins
import re

from .model import ClassInfo, FunctionInfo, Program, AnchorError
from .state import (PRISTINE, join_facts, C, NONE, TRUE, FALSE, NONNULL, State, Frame, Obj, mentions, rename, subterms,
                    merge_states, mk_eq, okey, show)
from .live import Liveness
from . import ext as X

MAX_DEPTH = 22
MAX_HEADS = 60
MAX_STATES = 400


class Budget(Exception):
    """Analysis budget exhausted."""


class Out(object):
    __slots__ = ('next', 'ret', 'brk', 'cont')

    def __init__(self):
        self.next = []
        self.ret = []
        self.brk = []
        self.cont = []

    def add(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


def has_call(node):
    r = getattr(node, '_has_call', None)
    if r is None:
        r = node._has_call = any(isinstance(n, (ast.Call, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Attribute))
                                 for n in ast.walk(node))
    return r


def has_ref(v):
    if not isinstance(v, (tuple, frozenset)):
        return False
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ref':
        return True
    return any(has_ref(x) for x in v if isinstance(x, (tuple, frozenset)))


class Interp(object):

    def __init__(self, prog, budget=400000):
        self.prog = prog
        self.intercepts = {}      # qualname -> handler(interp, st, fi, selfv, args, kws, node) -> [(st, v)] or None
        self.hooks = {}           # external name -> handler(interp, st, name, recv, args, kws, node)
        self.recency = 1          # objects of one allocation site kept apart
        self.strdom = None        # abstract string domain
        self.keep_paths = False   # never merge states
        self.any_hook = None      # same, for every external call not handled by hooks
        self.store_hook = None    # (interp, st, objvalue, name, value, node)
        self.attr_hook = None     # (interp, st, objvalue, name, node) -> [(st, v)] or None
        self.type_hook = None     # term -> class qualname or builtin type name
        self.types = {}           # term -> type name
        self.witness = {}         # source term -> tuple of element terms that are in it
        self.only_witness = set() # sources that have only the witness elements
        self.exact_src = {}       # source term -> tuple of its elements, in order
        self.gvals = {}           # (module, name) -> value
        self.strict = False       # conversions of unknown strings may fail
        self.rec_depth = 2        # calls of one function on the stack that are followed
        self.subst = {}           # qualified name -> value standing for it
        self.inline_props = set() # property names evaluated through their getter on unknown objects
        self.call_hook = None     # (interp, st, fi, selfv, args, kws, node) observer
        self.raises = []
        self.gens = {}
        self.live = {}
        self.fn_seen = set()
        self.call_sites = set()
        self.branches = set()
        self.ext_seen = {}
        self.unknown = {}
        self.steps = 0
        self.budget = budget
        self.symloop = 0
        self.branch_hook = None
        self._shared = set()
        self.global_written = set()
        for f in prog.functions.values():
            for n in f.globals:
                self.global_written.add((f.module.name, n))

    # ------------------------------------------------------------------ utilities

    def throw(self, st, cls, args=(), node=None, exact=True):
        """Raise an exception of class cls (dotted name) in state st."""
        self.raises.append((st, ('exc', cls, tuple(args), exact)))

    def where(self, st, node):
        rel = st.fn.module.relpath if st.fn else '?'
        return '%s:%d' % (rel, getattr(node, 'lineno', 0))

    def stackinfo(self, st):
        out = []
        for f in st.stack:
            if f.fn is not None:
                out.append(f.fn.qualname)
        if st.fn is not None:
            out.append(st.fn.qualname)
        return out

    def unk(self, what, st=None, node=None):
        w = '%s at %s' % (what, self.where(st, node)) if st is not None and node is not None else what
        self.unknown[w] = self.unknown.get(w, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('more than %d steps' % self.budget)

    def site(self, st, node):
        return (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                tuple((getattr(f.node, 'lineno', 0), getattr(f.node, 'col_offset', 0)) for f in st.stack))

    def alloc(self, st, node, obj, tag=''):
        i = ('@', tag) + self.site(st, node) + ('new',)
        if i in st.heap:
            # recency: previous objects of this site move on, the oldest become the summary
            chain = [i] + [i[:-1] + ('n%d' % k,) for k in range(2, self.recency + 1)] + [i[:-1] + ('old',)]
            n = 1
            while n < len(chain) - 1 and chain[n] in st.heap:
                n += 1
            for k in range(n, 0, -1):
                a, b = chain[k], chain[k - 1]
                if a in st.heap:
                    st.heap[a] = self.join_obj(st.heap[a], st.heap[b], ('alloc', i))
                    del st.heap[b]
                else:
                    st.heap[a] = st.heap.pop(b)
                st.rename({('ref', b): ('ref', a)})
        st.heap[i] = obj
        return ('ref', i)

    def new_list(self, st, node, items=(), kind='list', tag=''):
        return self.alloc(st, node, Obj(kind, items=tuple(items)), tag or kind)

    def new_summary(self, st, node, may, must=(), kind='list', ne=False):
        return self.alloc(st, node, Obj(kind, items=None, may=frozenset(may), must=frozenset(must), ne=ne or bool(must)), kind)

    def obj(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            return st.heap.get(v[1])
        return None

    def typ(self, st, v):
        """Type name of a value: class qualname, builtin type name or None."""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return None
            return o.cls if o.kind in ('inst', 'ext', 'nt') else o.kind
        if k == 'cat' or k == 'fmt':
            return 'str'
        if k in ('len', 'int', 'sum'):
            return 'int'
        if k == 'pred':
            return 'bool'
        if k == 'tup':
            return 'tuple'
        if k == 'exc':
            return v[1]
        t = self.types.get(v)
        if t is None and self.type_hook is not None:
            t = self.type_hook(v)
        if t is None and k in ('call', 'meth'):
            t = X.result_type(v)
        return t

    def pclass(self, st, v):
        """ClassInfo of a value or None."""
        t = self.typ(st, v)
        if t is None:
            return None
        return self.prog.classes.get(t)

    # ------------------------------------------------------------------ joins

    def join_val(self, a, b, tag):
        if a == b:
            return a
        if a is None or b is None:
            return ('fresh', 'undef', tag)
        if (a[0] in ('int',) or a[0] == 'c' and a[1] == 'int') and (b[0] == 'int' or b[0] == 'c' and b[1] == 'int'):
            la = a[1] if a[0] == 'int' else a[2]
            lb = b[1] if b[0] == 'int' else b[2]
            if la is None or lb is None:
                return ('int', None)
            return ('int', min(la, lb) if min(la, lb) in (0, 1) else (1 if min(la, lb) > 0 else None))
        return ('fresh', 'joined', tag)

    def join_obj(self, a, b, tag):
        if a.key() == b.key():
            return a
        if a.kind != b.kind or a.cls != b.cls:
            return Obj('inst', None, {})
        attrs = {}
        for k in set(a.attrs) | set(b.attrs):
            attrs[k] = self.join_val(a.attrs.get(k), b.attrs.get(k), tag + (k,)) if k != 'wv' else both(a.attrs.get(k), b.attrs.get(k))
        if a.kind == 'dict' or (a.items and b.items and a.kind == 'inst'):
            return self.join_dict(a, b, attrs, tag)
        if a.items is not None and a.items == b.items:
            return a.but(attrs=attrs)
        return Obj(a.kind, a.cls, attrs, None, self.may_of(a) | self.may_of(b), self.must_of(a) & self.must_of(b),
                   self.ne_of(a) and self.ne_of(b))

    def join_dict(self, a, b, attrs, tag):
        da = {k: (v, m) for k, v, m in (a.items or ())}
        db = {k: (v, m) for k, v, m in (b.items or ())}
        items = []
        for k in list(da) + [x for x in db if x not in da]:
            if k in da and k in db:
                items.append((k, self.join_val(da[k][0], db[k][0], tag + (okey(k),)), da[k][1] and db[k][1]))
            else:
                v = (da.get(k) or db.get(k))[0]
                items.append((k, v, False))
        return Obj(a.kind, a.cls, attrs, tuple(items), a.may | b.may, a.must & b.must, False)

    def may_of(self, o):
        return frozenset(o.items) if o.items is not None else o.may

    def must_of(self, o):
        return frozenset(o.items) if o.items is not None else o.must

    def ne_of(self, o):
        return len(o.items) > 0 if o.items is not None else o.ne

    def join_states(self, a, b, tag):
        """Lossy join of two states with the same frames."""
        s = a.copy()
        s.lossy('states joined')
        for k in set(a.env) | set(b.env):
            if k[:2] == '$w' and k[-1] != 'r':
                s.env[k] = both(a.env.get(k), b.env.get(k))
                continue
            s.env[k] = self.join_val(a.env.get(k), b.env.get(k), tag + (k,))
        st = []
        for i, (f, g) in enumerate(zip(a.stack, b.stack)):
            if f is g:
                st.append(f)
                continue
            e = {}
            for k in set(f.env) | set(g.env):
                e[k] = self.join_val(f.env.get(k), g.env.get(k), tag + (i, k))
            st.append(Frame(f.fn, e, f.node))
        s.stack = tuple(st)
        for k in set(a.heap) | set(b.heap):
            if k in a.heap and k in b.heap:
                s.heap[k] = self.join_obj(a.heap[k], b.heap[k], tag + (k,))
            elif k in b.heap:
                s.heap[k] = b.heap[k]
        for k in set(a.sa) | set(b.sa):
            x, y = a.sa.get(k), b.sa.get(k)
            s.sa[k] = self.join_val(x if x is not None else ('attr', k[0], k[1]), y if y is not None else ('attr', k[0], k[1]), tag + (okey(k),))
        s.facts = join_facts(a, b)
        return s

    def merge(self, states, live=None):
        if self.keep_paths:
            return list(states)
        """Drop dead variables and garbage, then merge equal states."""
        if len(states) < 2:
            return states
        for s in states:
            self.clean(s, live)
        out = merge_states(states)
        if len(out) > MAX_STATES:
            groups = {}
            for s in out:
                groups.setdefault((s.auto, frozenset(s.env)), []).append(s)
            out = []
            for k, g in groups.items():
                while len(g) > 20:
                    x = self.join_states(g[0], g[-1], ('merge', len(g[0].stack)))
                    g = [x] + g[1:-1]
                out += g
            out = merge_states(out)
        return out

    def clean(self, s, live):
        if live is not None:
            for k in list(s.env):
                if k not in live and k[0] != '$':
                    del s.env[k]
        s.gc()

    # ------------------------------------------------------------------ entry

    def start(self, fi_module_fn=None):
        st = State()
        st.fn = fi_module_fn
        return st

    def run(self, fi, selfv, args, kws, st, node=None):
        """Call a project function from a rule; returns (returns, raises)."""
        saved, self.raises = self.raises, []
        try:
            rets = self.call_function(fi, selfv, list(args), dict(kws), st, node or fi.node)
            return rets, self.raises
        finally:
            self.raises = saved

    def construct(self, cls, args, kws, st, node=None):
        saved, self.raises = self.raises, []
        try:
            rets = self.instantiate(cls, list(args), dict(kws), st, node or cls.node)
            return rets, self.raises
        finally:
            self.raises = saved

    # ------------------------------------------------------------------ calls

    def frame_env(self, st):
        return st.env

    def const_eval(self, module, expr, st, owner=None):
        """Evaluate a module/class level expression in st; returns a value."""
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        if expr is None:
            return ('fresh', 'gvar', (module.name,))
        fi = FunctionInfo.__new__(FunctionInfo)
        fi.__dict__.update(node=expr, module=module, cls=None, qualname=module.name + '.<expr>', name='<expr>',
                           decorators=[], is_static=False, is_class=False, is_gen=False, globals=set(), nonlocals=set())
        st.stack = st.stack + (Frame(st.fn, st.env, expr),)
        st.env, st.fn = {}, fi
        if owner is not None:
            for k, e in owner.class_attrs.items():
                if isinstance(e, ast.Constant):
                    st.env[k] = C(e.value)
        saved, self.raises = self.raises, []
        res = self.ev(expr, st)
        self.raises = saved
        if not res:
            self.pop(st)
            return ('fresh', 'gvar', (module.name, getattr(expr, 'lineno', 0)))
        s, v = res[0]
        if s is not st:
            st.heap, st.facts, st.env, st.stack, st.fn = s.heap, s.facts, s.env, s.stack, s.fn
        self.pop(st)
        return v

    def pop(self, st):
        f = st.stack[-1]
        st.stack = st.stack[:-1]
        st.env = dict(f.env)
        st.fn = f.fn

    def bind(self, fi, selfv, args, kws, st, node):
        """Bind arguments to parameters; returns env or None on a signature error."""
        a = fi.node.args
        params = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        env = {}
        args = list(args)
        kws = dict(kws)
        if selfv is not None and not fi.is_static:
            args = [selfv] + args
        star = kws.pop('**', None)
        starargs = None
        if args and args[-1][0] == 'starred':
            starargs = args.pop()[1]
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
        if len(args) > len(params):
            if a.vararg is None:
                return None
            env[a.vararg.arg] = ('tup', tuple(args[len(params):]))
        elif a.vararg is not None:
            env[a.vararg.arg] = starargs if starargs is not None else ('tup', ())
        extra = {}
        allp = set(params) | {p.arg for p in a.kwonlyargs}
        for k, v in kws.items():
            if k in allp:
                if k in env:
                    return None
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            items = tuple((C(k), v, True) for k, v in extra.items())
            env['$kw'] = items
        elif extra:
            return None
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if star is not None:
                    env[p] = ('idx', star, C(p))
                elif starargs is not None and j < 0:
                    env[p] = ('idx', starargs, C(i))
                elif j >= 0:
                    env[p] = self.default(fi, a.defaults[j], st)
                else:
                    return None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if star is not None:
                    env[p.arg] = ('idx', star, C(p.arg))
                elif d is None:
                    return None
                else:
                    env[p.arg] = self.default(fi, d, st)
        return env

    def default(self, fi, expr, st):
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        v = self.const_eval(fi.module, expr, st, fi.cls)
        if v[0] == 'ref' and isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.Call)) and fi.qualname in self.prog.functions:
            # evaluated once, when the function is defined: every call shares it
            a = fi.node.args
            rid = ('@', 'default', fi.qualname, [d is expr for d in list(a.defaults) + list(a.kw_defaults)].index(True))
            if rid in st.heap:
                st.heap.pop(v[1], None)
                return ('ref', rid)
            return self.shared(st, rid, v)
        return v

    def find_intercept(self, fi, selfv, st):
        h = self.intercepts.get(fi.qualname)
        if h is None and fi.cls is not None:
            h = self.intercepts.get('*.' + fi.name)
        return h

    def call_function(self, fi, selfv, args, kws, st, node):
        self.tick()
        self.call_sites.add((st.fn.qualname if st.fn else '', getattr(node, 'lineno', 0), fi.qualname))
        h = self.find_intercept(fi, selfv, st)
        if h is not None:
            r = h(self, st, fi, selfv, args, kws, node)
            if r is not None:
                return r
        if self.call_hook is not None:
            self.call_hook(self, st, fi, selfv, args, kws, node)
        if fi.is_class and selfv is not None and selfv[0] == 'ref':
            o = self.obj(st, selfv)
            if o is not None and o.cls:
                selfv = ('cls', o.cls)
        env = self.bind(fi, selfv, args, kws, st, node)
        if env is None:
            self.throw(st, 'builtins.TypeError', (C('bad call of %s' % fi.qualname),))
            return []
        kw = env.pop('$kw', None)
        if kw is not None:
            o = Obj('dict', items=kw)
            env[fi.node.args.kwarg.arg] = self.alloc(st, node, o, 'kw')
        if fi.is_gen:
            i = self.alloc(st, node, Obj('gen', fi.qualname, dict(env)), 'gen')
            return [(st, i)]
        depth = sum(1 for f in st.stack if f.fn is fi) + (1 if st.fn is fi else 0)
        if len(st.stack) > MAX_DEPTH or depth >= self.rec_depth:
            self.unk('recursion into %s' % fi.qualname)
            return [(st, ('call', fi.qualname, tuple(a for a in args if a[0] != 'starred'), ()))]
        return self.exec_body(fi, env, st, node)

    def lv(self, fi):
        r = self.live.get(id(fi.node))
        if r is None:
            r = self.live[id(fi.node)] = Liveness(fi.node)
        return r

    def exec_body(self, fi, env, st, node):
        self.fn_seen.add(fi.qualname)
        st.stack = st.stack + (Frame(st.fn, st.env, node),)
        st.env, st.fn = env, fi
        saved, self.raises = self.raises, []
        sl, self.symloop = self.symloop, self.symloop
        try:
            if isinstance(fi.node, ast.Lambda):
                rets = self.ev(fi.node.body, st)
            else:
                out = self.block(fi.node.body, [st])
                rets = out.ret + [(s, NONE) for s in out.next]
            mine = self.raises
        finally:
            self.raises = saved
            self.symloop = sl
        res = []
        for s, v in rets:
            self.pop(s)
            s.env['$ret'] = v
            res.append(s)
        if len(res) > 1 and not self.keep_paths:
            for s in res:
                s.gc()
            res = merge_states(res)
        rv = []
        for s in res:
            rv.append((s, s.env.pop('$ret')))
        ex = []
        for s, e in mine:
            self.pop(s)
            s.env['$ret'] = e
            ex.append(s)
        if len(ex) > 1 and not self.keep_paths:
            for s in ex:
                s.gc()
            ex = merge_states(ex)
        for s in ex:
            self.raises.append((s, s.env.pop('$ret')))
        return rv

    def instantiate(self, ci, args, kws, st, node):
        h = self.intercepts.get(ci.qualname)
        if h is not None:
            r = h(self, st, ci, None, args, kws, node)
            if r is not None:
                return r
        if any(X.is_exception(b) for b in ci.ext_bases()):
            return [(st, ('exc', ci.qualname, tuple(args) + tuple(v for k, v in kws.items() if k != '**'), True))]
        ref = self.alloc(st, node, Obj('inst', ci.qualname, {}), ci.name)
        init = ci.find('__init__')
        if init is None or init[0] != 'method':
            dc = [d for d in ci.node.decorator_list]
            if dc:
                names = [b.target.id for b in ci.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
                o = st.heap[ref[1]]
                for n, a in zip(names, args):
                    o = o.setattr(n, a)
                for k, v in kws.items():
                    o = o.setattr(k, v)
                st.heap[ref[1]] = o
            return [(st, ref)]
        hold = '$n%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st.env[hold] = ref
        out = []
        for s, _ in self.call_function(init[1], ref, args, kws, st, node):
            r = s.env.pop(hold)
            out.append((s, r))
        return out

    def call_value(self, st, f, args, kws, node):
        """Call value f; returns [(st, v)]."""
        k = f[0]
        if k == 'fn':
            fi = self.prog.functions.get(f[1])
            if fi is None:
                return [(st, ('call', f[1], tuple(args), ()))]
            return self.call_function(fi, f[2], args, kws, st, node)
        if k == 'cls':
            ci = self.prog.classes.get(f[1])
            return self.instantiate(ci, args, kws, st, node)
        if k == 'ext':
            return self.call_ext(st, f[1], args, kws, node)
        if k == 'bm':
            return X.call_method(self, st, f[1], f[2], args, kws, node)
        if k == 'ref':
            o = self.obj(st, f)
            if o is not None and o.kind == 'clo':
                return self.call_closure(st, o, args, kws, node)
            if o is not None and o.kind == 'partial':
                a = list(o.items) + list(args)
                kw = dict(o.attrs)
                fn = kw.pop('$f')
                kw.update(kws)
                return self.call_value(st, fn, a, kw, node)
            ci = self.pclass(st, f)
            if ci is not None:
                m = ci.find('__call__')
                if m and m[0] == 'method':
                    return self.call_function(m[1], f, args, kws, st, node)
        if k == 'call' and f[1] == 'collections.namedtuple':
            names = X.nt_names(f, st, self)
            if names is not None:
                vals = list(args) + [kws[n] for n in names[len(args):] if n in kws]
                if len(vals) == len(names):
                    o = Obj('nt', None, dict(zip(names, vals)), tuple(vals))
                    return [(st, self.alloc(st, node, o, 'nt'))]
        if k == 'attr':
            # method of an unknown object
            return X.call_method(self, st, f[1], f[2], args, kws, node)
        return self.generic_ext(st, 'call:' + (f[1] if k in ('p',) else k), f, args, kws, node)

    def call_closure(self, st, o, args, kws, node):
        fnode = o.cls[1]
        fi = self.closure_fi(fnode, o.cls[0])
        env = self.bind(fi, None, args, kws, st, node)
        if env is None:
            self.throw(st, 'builtins.TypeError', ())
            return []
        kw = env.pop('$kw', None)
        if kw is not None:
            env[fi.node.args.kwarg.arg] = self.alloc(st, node, Obj('dict', items=kw), 'kw')
        # captured variables: the defining frame if still active, else the snapshot
        cap = None
        if st.fn is not None and st.fn.qualname == o.cls[0]:
            cap = st.env
        else:
            for f in reversed(st.stack):
                if f.fn is not None and f.fn.qualname == o.cls[0]:
                    cap = f.env
                    break
        snap = o.attrs
        for k, v in (cap if cap is not None else snap).items():
            if k not in env and k[0] != '$':
                env[k] = v
        depth = sum(1 for f in st.stack if f.fn is not None and f.fn.node is fnode)
        if fi.is_gen:
            return [(st, self.alloc(st, node, Obj('gen', ('clo', id(fnode)), env), 'gen'))]
        if depth >= self.rec_depth or len(st.stack) > MAX_DEPTH:
            return [(st, ('fresh', 'recursion', self.site(st, node)))]
        nl = fi.nonlocals
        res = []
        d = len(st.stack)
        for s, v in self.exec_closure(fi, env, st, node, nl):
            res.append((s, v))
        return res

    def exec_closure(self, fi, env, st, node, nl):
        if not nl:
            return self.exec_body(fi, env, st, node)
        # nonlocal variables: copy back into the caller (direct caller frames only)
        self.fn_seen.add(fi.qualname)
        st.stack = st.stack + (Frame(st.fn, st.env, node),)
        st.env, st.fn = env, fi
        saved, self.raises = self.raises, []
        out = self.block(fi.node.body, [st])
        mine, self.raises = self.raises, saved
        res = []
        for s, v in out.ret + [(s, NONE) for s in out.next]:
            vals = {k: s.env[k] for k in nl if k in s.env}
            self.pop(s)
            s.env.update(vals)
            res.append((s, v))
        for s, e in mine:
            vals = {k: s.env[k] for k in nl if k in s.env}
            self.pop(s)
            s.env.update(vals)
            self.raises.append((s, e))
        return res

    _clofi = {}

    def closure_fi(self, fnode, outer):
        key = id(fnode)
        fi = self._clofi.get(key)
        if fi is None or fi.node is not fnode:
            o = self.prog.functions.get(outer) or self._clofi.get(outer)
            if o is None:
                for x in self._clofi.values():
                    if x.qualname == outer:
                        o = x
            fi = FunctionInfo(fnode, o.module, None, outer + '.' + getattr(fnode, 'name', '<lambda>'))
            fi.cls = o.cls
            self._clofi[key] = fi
        return fi

    def call_ext(self, st, name, args, kws, node):
        self.tick()
        self.ext_seen[name] = self.ext_seen.get(name, 0) + 1
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, name, None, args, kws, node)
            if r is not None:
                return r
        r = X.call_builtin(self, st, name, args, kws, node)
        if r is not None:
            return r
        return self.generic_ext(st, name, None, args, kws, node, hooked=h is not None)

    def generic_ext(self, st, name, recv, args, kws, node, hooked=False):
        if self.any_hook is not None:
            r = self.any_hook(self, st, name, recv, args, kws, node)
            if r is not None:
                return r
        return [(st, self.ext_result(st, name, recv, args, kws, node))]

    def ext_result(self, st, name, recv, args, kws, node):
        kw = tuple(sorted(((k, v) for k, v in kws.items()), key=lambda x: x[0]))
        if name in X.STATEFUL:
            attrs = {'$a%d' % i: a for i, a in enumerate(args)}
            attrs.update({'$k_' + k: v for k, v in kw})
            return self.alloc(st, node, Obj('ext', name, attrs), name)
        if name in X.IMPURE or (recv is not None and name in X.IMPURE_METHODS):
            t = ('fresh', name, self.site(st, node) + tuple(args[:2]))
            self.refresh(st, t)
            return t
        if recv is not None:
            return ('meth', recv, name[1:] if name[0] == '.' else name, tuple(args), kw)
        if X.is_exception(name):
            return ('exc', X.canon_exc(name), tuple(args), True)
        return ('call', name, tuple(args), kw)

    def refresh(self, st, t):
        """A new value is produced at a site: what is known about the previous one is dropped."""
        if any(mentions(a, t) for a in st.facts):
            st.facts = {a: v for a, v in st.facts.items() if not mentions(a, t)}
        o = ('old', t)
        if any(mentions(v, t) for v in st.env.values() if isinstance(v, tuple)) or \
                any(mentions(k, t) or mentions(v, t) for k, v in st.sa.items()):
            st.rename({t: o})

    # ------------------------------------------------------------------ attributes

    def class_attr(self, st, ci, expr, owner, name):
        key = ('clsattr', owner.qualname, name)
        v = st.sa.get((('cls', owner.qualname), name))
        if v is not None:
            return v
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        rid = ('@', 'clsattr', owner.qualname, name)
        if rid in st.heap:
            return ('ref', rid)
        v = self.const_eval(owner.module, expr, st, owner)
        return self.shared(st, rid, v)

    def shared(self, st, rid, v):
        if v[0] == 'ref' and v[1] in st.heap:
            o = st.heap.pop(v[1])
            old = PRISTINE.get(rid)
            if old is not None and old == o:
                o = old
            else:
                PRISTINE[rid] = o
            st.heap[rid] = o
            return ('ref', rid)
        return v

    def get_attr(self, st, v, name, node):
        """Attribute load: [(st, value)]."""
        if self.attr_hook is not None:
            r = self.attr_hook(self, st, v, name, node)
            if r is not None:
                return r
        k = v[0]
        if k == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return [(st, ('attr', v, name))]
            if o.kind == 'inst':
                ci = self.prog.classes.get(o.cls) if o.cls else None
                if ci is not None:
                    r = ci.find(name)
                    if r is not None and r[0] == 'prop':
                        if r[1] is None:
                            return [(st, ('attr', v, name))]
                        return self.call_function(r[1], v, [], {}, st, node)
                    if name in o.attrs:
                        return [(st, o.attrs[name])]
                    if r is not None:
                        if r[0] == 'method':
                            return [(st, ('fn', r[1].qualname, None if r[1].is_static else (('cls', o.cls) if r[1].is_class else v)))]
                        return [(st, self.class_attr(st, ci, r[1], r[2], name))]
                    if name == '__class__':
                        return [(st, ('cls', o.cls))]
                    if any(b in ('builtins.dict', 'collections.OrderedDict') for b in ci.ext_bases()) and name in X.DICT_METHODS:
                        return [(st, ('bm', v, name))]
                    g = ci.find('__getattr__')
                    if g is not None and g[0] == 'method':
                        return self.call_function(g[1], v, [C(name)], {}, st, node)
                    if not any(b not in X.BASES or hasattr(X.BASES[b], name) and b != 'builtins.object' for b in ci.ext_bases()) \
                            and v[1][-1] == 'new' and not o.attrs.get('$open'):
                        self.throw(st, 'builtins.AttributeError', (C(name),), node)
                        return []
                    return [(st, ('bm', v, name))]
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                return [(st, ('attr', v, name))]
            if o.kind in ('ext', 'nt', 'file') and name in o.attrs:
                return [(st, o.attrs[name])]
            if o.kind in X.PLAIN and not hasattr(X.PLAIN[o.kind], name):
                self.throw(st, 'builtins.AttributeError', (C(name),), node)
                return []
            return [(st, ('bm', v, name))]
        if k == 'mod':
            m = self.prog.modules[v[1]]
            sub = v[1] + '.' + name
            r = self.prog.lookup(m, name) if name in m.names else None
            if r is None and sub in self.prog.modules:
                return [(st, ('mod', sub))]
            if r is None:
                self.throw(st, 'builtins.AttributeError', (C(name),), node)
                return []
            return [(st, self.resolved(st, r))]
        if k == 'ext':
            cv = X.ext_const(v[1] + '.' + name)
            if cv is not None:
                return [(st, cv)]
            return [(st, self.substituted(('ext', v[1] + '.' + name)))]
        if k == 'cls':
            ci = self.prog.classes.get(v[1])
            if name == '__name__':
                return [(st, C(ci.name))]
            r = ci.find(name)
            if r is not None:
                if r[0] == 'method':
                    return [(st, ('fn', r[1].qualname, v if r[1].is_class else None))]
                if r[0] == 'attr':
                    return [(st, self.class_attr(st, ci, r[1], r[2], name))]
            b = [x for x in ci.ext_bases() if x != 'builtins.object']
            if b:
                return [(st, ('ext', b[0] + '.' + name))]
            if name in ('__setattr__', '__getattribute__', '__init__', '__eq__', '__repr__', '__str__'):
                return [(st, ('ext', 'builtins.object.' + name))]
            return [(st, ('attr', v, name))]
        if k == 'super':
            ci = self.prog.classes.get(v[1])
            own = self.pclass(st, v[2]) or ci
            if v[2][0] == 'cls':
                own = self.prog.classes.get(v[2][1]) or ci
            if ci not in own.mro():
                own = ci
            r = own.find(name, after=ci)
            if r is not None:
                if r[0] == 'method':
                    return [(st, ('fn', r[1].qualname, v[2]))]
                if r[0] == 'prop' and r[1] is not None:
                    return self.call_function(r[1], v[2], [], {}, st, node)
                if r[0] == 'attr':
                    return [(st, self.class_attr(st, own, r[1], r[2], name))]
            return [(st, ('bm', v, name))]
        if k in ('c', 'tup', 'cat', 'exc'):
            if k == 'exc':
                sv = st.sa.get((v, name))
                if sv is not None:
                    return [(st, sv)]
            return [(st, ('bm', v, name))]
        if k == 'fn':
            return [(st, ('attr', v, name))]
        # unknown object
        sv = st.sa.get((v, name))
        if sv is not None:
            return [(st, sv)]
        ci = self.pclass(st, v)
        if ci is not None:
            r = ci.find(name)
            if r is not None:
                if r[0] == 'method':
                    return [(st, ('fn', r[1].qualname, None if r[1].is_static else (('cls', ci.qualname) if r[1].is_class else v)))]
                if r[0] == 'prop':
                    if r[1] is not None and name in self.inline_props:
                        return self.call_function(r[1], v, [], {}, st, node)
                    return [(st, ('attr', v, name))]
                if r[0] == 'attr':
                    return [(st, self.class_attr(st, ci, r[1], r[2], name))]
        return [(st, ('attr', v, name))]

    def set_attr(self, st, v, name, val, node, raw=False):
        """Attribute store: list of states."""
        if self.store_hook is not None:
            self.store_hook(self, st, v, name, val, node)
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return [st]
            if o.kind == 'inst' and o.cls:
                ci = self.prog.classes.get(o.cls)
                if not raw:
                    m = ci.find('__setattr__')
                    if m is not None and m[0] == 'method':
                        return [s for s, _ in self.call_function(m[1], v, [C(name), val], {}, st, node)]
                sf = ci.find_setter(name)
                if sf is not None:
                    return [s for s, _ in self.call_function(sf, v, [val], {}, st, node)]
                r = ci.find(name)
                if r is not None and r[0] == 'prop':
                    self.throw(st, 'builtins.AttributeError', (C(name),), node)
                    return []
                slots = self.slots(ci)
                if slots is not None and name not in slots:
                    self.throw(st, 'builtins.AttributeError', (C(name),), node)
                    return []
            if v[1][-1] == 'old':
                ov = o.attrs.get(name)
                if ov is not None and ov != val:
                    val = ('fresh', 'weak', (v[1], name))
            st.heap[v[1]] = o.setattr(name, val)
            return [st]
        if v[0] == 'super':
            return self.set_attr(st, v[2], name, val, node, raw=True)
        if v[0] == 'mod':
            st.sa[(v, name)] = val
            return [st]
        ci = self.pclass(st, v)
        if ci is not None and not raw and v[0] != 'cls':
            m = ci.find('__setattr__')
            if m is not None and m[0] == 'method':
                return [s for s, _ in self.call_function(m[1], v, [C(name), val], {}, st, node)]
        st.sa[(v, name)] = val
        self.kill_attr_facts(st, v, name)
        return [st]

    def kill_attr_facts(self, st, v, name):
        pass

    def slots(self, ci):
        """Names allowed by __slots__, or None if instances have a __dict__."""
        out = set()
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                if c != 'builtins.object':
                    return None
                continue
            e = c.class_attrs.get('__slots__')
            if e is None:
                return None
            if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
                for x in e.elts:
                    if isinstance(x, ast.Constant):
                        out.add(x.value)
                    else:
                        return None
            elif isinstance(e, ast.Constant):
                out.add(e.value)
            else:
                return None
        return out

    # ------------------------------------------------------------------ names

    def resolved(self, st, r):
        v = self.resolved0(st, r)
        if self.subst:
            return self.substituted(v)
        return v

    def substituted(self, v):
        if v[0] in ('ext', 'fn', 'cls') and (v[0] != 'fn' or v[2] is None):
            w = self.subst.get(v[1])
            if w is not None:
                return w
        return v

    def resolved0(self, st, r):
        k = r[0]
        if k == 'fn':
            return ('fn', r[1].qualname, None)
        if k == 'cls':
            return ('cls', r[1].qualname)
        if k == 'mod':
            return ('mod', r[1])
        if k == 'ext':
            c = X.ext_const(r[1])
            return c if c is not None else ('ext', r[1])
        if k == 'builtin':
            return ('ext', 'builtins.' + r[1])
        if k == 'gvar':
            m, name, exprs = r[1], r[2], r[3]
            gv = self.gvals.get((m.name, name))
            if gv is not None:
                return gv
            sv = st.sa.get((('mod', m.name), name))
            if sv is not None:
                return sv
            if (m.name, name) in self.global_written and not self.strict or len(exprs) != 1:
                return ('gvar', m.name, name)
            e = exprs[0]
            if isinstance(e, ast.Constant):
                return C(e.value)
            rid = ('@', 'gvar', m.name, name)
            if rid in st.heap:
                return ('ref', rid)
            return self.shared(st, rid, self.const_eval(m, e, st))
        if k == 'missing':
            return ('ext', r[1] + '.' + r[2])
        return ('fresh', 'name', r[1])

    def load_name(self, st, name, node):
        fn = st.fn
        if fn is not None and name not in fn.globals:
            v = st.env.get(name)
            if v is not None:
                return v
        r = self.prog.lookup(fn.module, name)
        if r is None:
            return None
        return self.resolved(st, r)

    # ------------------------------------------------------------------ expressions

    def ev_seq(self, nodes, st):
        """Evaluate expressions left to right: [(st, [values])]."""
        nodes = list(nodes)
        if len(nodes) == 1:
            return [(s, [v]) for s, v in self.ev(nodes[0], st)]
        res = [(st, [])]
        held = []          # (position, name) of values kept alive in the frame while later operands run
        for i, n in enumerate(nodes):
            out = []
            rest = any(has_call(m) for m in nodes[i + 1:])
            hk = None
            for s, vals in res:
                for s2, v in self.ev(n, s):
                    hv = vals
                    if held:
                        hv = list(vals)
                        for j, k in held:
                            hv[j] = s2.env.get(k, hv[j])
                    if rest and has_ref(v):
                        if hk is None:
                            hk = '$h%d_%d' % (id(n) & 0xffffff, i)
                        s2.env[hk] = v
                    out.append((s2, hv + [v]))
            if hk is not None:
                held.append((i, hk))
            res = out
        if held:
            for s, vals in res:
                for j, k in held:
                    s.env.pop(k, None)
        return res

    def ev(self, n, st):
        """Evaluate expression n in st (owned): [(st, value)]."""
        m = getattr(self, 'ev_' + n.__class__.__name__, None)
        if m is None:
            self.unk('expression ' + n.__class__.__name__, st, n)
            return [(st, ('fresh', n.__class__.__name__, self.site(st, n)))]
        return m(n, st)

    def ev_Constant(self, n, st):
        return [(st, C(n.value))]

    def ev_Name(self, n, st):
        v = self.load_name(st, n.id, n)
        if v is None:
            if n.id in ('__name__', '__file__', '__doc__'):
                return [(st, ('ext', n.id))]
            self.throw(st, 'builtins.NameError', (C(n.id),), n)
            return []
        return [(st, v)]

    def ev_Attribute(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            out += self.get_attr(s, v, n.attr, n)
        return out

    def ev_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            s.env[n.target.id] = v
            out.append((s, v))
        return out

    def ev_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.ev_List(n, st)
        return [(s, ('tup', tuple(vs))) for s, vs in self.ev_seq(n.elts, st)]

    def ev_List(self, n, st, kind='list'):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for s, vs in self.ev_seq([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
                may, must, exact = [], [], True
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        ex = self.exact_items(s, v)
                        if ex is not None:
                            may += list(ex)
                            must += list(ex)
                        else:
                            exact = False
                            a, b, ne = self.summary_of(s, v)
                            may += list(a)
                            must += list(b)
                    else:
                        may.append(v)
                        must.append(v)
                if exact:
                    out.append((s, self.new_list(s, n, may, kind)))
                else:
                    out.append((s, self.new_summary(s, n, may, must, kind)))
            return out
        return [(s, self.new_list(s, n, vs, kind)) for s, vs in self.ev_seq(n.elts, st)]

    def ev_Set(self, n, st):
        out = []
        for s, v in self.ev_List(n, st, 'set'):
            out.append((s, v))
        return out

    def ev_Dict(self, n, st):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.ev_seq(nodes, st):
            o = Obj('dict', items=())
            ref = self.alloc(s, n, o, 'dict')
            i = 0
            for k, v in zip(n.keys, n.values):
                if k is None:
                    X.dict_update(self, s, ref, vs[i])
                    i += 1
                else:
                    X.dict_set(self, s, ref, vs[i], vs[i + 1])
                    i += 2
            out.append((s, ref))
        return out

    def ev_Starred(self, n, st):
        return [(s, ('starred', v)) for s, v in self.ev(n.value, st)]

    def ev_JoinedStr(self, n, st):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vs in self.ev_seq(nodes, st):
            parts = []
            for e, v in zip(n.values, vs):
                if isinstance(e, ast.FormattedValue) and e.format_spec is not None:
                    spec = ''.join(x.value for x in e.format_spec.values if isinstance(x, ast.Constant))
                    spec = re.sub(r'^0?>?(\d*d)$', lambda m: m.group(0), spec)
                    parts.append(X.fmt_part('%' + spec, v) if spec else v)
                else:
                    parts.append(v)
            out.append((s, X.single(self, s, X.cat(parts))))
        return out

    def ev_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def ev_Lambda(self, n, st):
        return [(st, self.closure(st, n))]

    def closure(self, st, n):
        snap = {k: v for k, v in st.env.items() if k[0] != '$'}
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        snap = {k: v for k, v in snap.items() if k in used}
        if id(n) not in self._clofi or self._clofi[id(n)].node is not n:
            fi = FunctionInfo(n, st.fn.module, None, st.fn.qualname + '.' + getattr(n, 'name', '<lambda>'))
            fi.cls = st.fn.cls
            self._clofi[id(n)] = fi
        return self.alloc(st, n, Obj('clo', (st.fn.qualname, n), snap), 'clo')

    def ev_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        out = []
        for s in t:
            out += self.ev(n.body, s)
        for s in f:
            out += self.ev(n.orelse, s)
        return out

    def ev_BoolOp(self, n, st):
        res = [(st, None)]
        done = []
        last = len(n.values) - 1
        cur = [st]
        for i, e in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(e, s):
                    if i == last:
                        done.append((s2, v))
                        continue
                    t, f = self.truth(s2, v, e)
                    if isinstance(n.op, ast.And):
                        nxt += t
                        done += [(x, v if v[0] != 'pred' else FALSE) for x in f]
                    else:
                        nxt += f
                        done += [(x, v if v[0] != 'pred' else TRUE) for x in t]
            cur = nxt
        return done

    def ev_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                if v[0] == 'pred':
                    out.append((s, ('pred', v[1], not v[2])))
                    continue
                t, f = self.truth(s, v, n)
                out += [(x, FALSE) for x in t] + [(x, TRUE) for x in f]
            elif isinstance(n.op, ast.USub):
                if v[0] == 'c' and isinstance(v[2], (int, float)):
                    out.append((s, C(-v[2])))
                else:
                    out.append((s, ('un', '-', v)))
            else:
                out.append((s, ('un', n.op.__class__.__name__, v)))
        return out

    def ev_BinOp(self, n, st):
        out = []
        for s, (a, b) in self.ev_seq([n.left, n.right], st):
            out += X.binop(self, s, n.op, a, b, n)
        return out

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            out = []
            for s, (a, b) in self.ev_seq([n.left, n.comparators[0]], st):
                out += self.compare(s, n.ops[0], a, b, n)
            return out
        # chain a < b < c
        out = []
        for s, vs in self.ev_seq([n.left] + list(n.comparators), st):
            cur = [s]
            for i, op in enumerate(n.ops):
                nxt = []
                for x in cur:
                    for y, v in self.compare(x, op, vs[i], vs[i + 1], n):
                        t, f = self.truth(y, v, n)
                        nxt += t
                        out += [(z, FALSE) for z in f]
                cur = nxt
            out += [(x, TRUE) for x in cur]
        return out

    def compare(self, st, op, a, b, node):
        """[(st, value)] of a comparison."""
        neg = False
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if b == NONE:
                atom = ('isnone', a)
            elif a == NONE:
                atom = ('isnone', b)
            else:
                if a[0] == b[0] == 'ref' and a != b:
                    # different heap records are different objects
                    return [(st, C(neg))]
                atom = mk_eq(a, b)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if self.strdom is not None:
                r = self.strdom.compare(self, st, 'eq', a, b, neg, node)
                if r is not None:
                    return r
            r = X.compare_eq(self, st, a, b, neg, node)
            if r is not None:
                return r
            atom = mk_eq(a, b)
        elif isinstance(op, (ast.Lt, ast.GtE)):
            neg = isinstance(op, ast.GtE)
            atom = ('lt', a, b)
        elif isinstance(op, (ast.Gt, ast.LtE)):
            neg = isinstance(op, ast.LtE)
            atom = ('lt', b, a)
        elif isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if self.strdom is not None:
                r = self.strdom.compare_in(self, st, a, b, neg, node)
                if r is not None:
                    return r
            return X.compare_in(self, st, a, b, neg, node)
        else:
            return [(st, ('fresh', 'compare', self.site(st, node)))]
        if atom[0] == 'lt' and self.strdom is not None:
            r = self.strdom.compare(self, st, 'lt', atom[1], atom[2], neg, node)
            if r is not None:
                return r
        if atom[0] == 'lt' and self.strict:
            vals = [X.const_of(self, st, x) for x in atom[1:]]
            if None not in vals:
                try:
                    return [(st, C((vals[0][0] < vals[1][0]) != neg))]
                except TypeError:
                    pass
        if atom[0] == 'lt':
            atom, flip = X.norm_lt(self, st, atom)
            neg = neg != flip
        d = st.decide(atom)
        if d is not None:
            return [(st, C(d != neg))]
        return [(st, ('pred', atom, neg))]

    def ev_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            parts = [x for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            nodes = [n.value] + [x for x in parts if x is not None]
            out = []
            for s, vs in self.ev_seq(nodes, st):
                it = iter(vs[1:])
                sl = tuple(next(it) if p is not None else None for p in parts)
                out += X.get_slice(self, s, vs[0], sl, n)
            return out
        out = []
        for s, (v, i) in self.ev_seq([n.value, n.slice], st):
            out += X.get_item(self, s, v, i, n)
        return out

    def ev_Call(self, n, st):
        self.tick()
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            return self.ev_super(n, st)
        argn = list(n.args)
        kwn = list(n.keywords)
        out = []
        if isinstance(n.func, ast.Attribute):
            fnodes = [n.func.value]
        else:
            fnodes = [n.func]
        seqs = self.ev_seq(fnodes + [a.value if isinstance(a, ast.Starred) else a for a in argn] + [k.value for k in kwn], st)
        for i, a in enumerate(argn):
            if isinstance(a, ast.Starred):
                seqs = [z for s, vs in seqs for z in self.starred_seq(s, vs, i + 1, a)]
        for s, vs in seqs:
            args = []
            ok = True
            for a, v in zip(argn, vs[1:1 + len(argn)]):
                if isinstance(a, ast.Starred):
                    ex = self.exact_items(s, v)
                    if ex is not None:
                        args += list(ex)
                    else:
                        args.append(('starred', v))
                else:
                    args.append(v)
            kws = {}
            for k, v in zip(kwn, vs[1 + len(argn):]):
                if k.arg is not None:
                    kws[k.arg] = v
                else:
                    o = self.obj(s, v)
                    if o is not None and o.kind == 'dict' and not o.may and all(x[0][0] == 'c' and x[2] for x in o.items):
                        for kk, vv, _ in o.items:
                            kws[kk[2]] = vv
                    elif v != NONE:
                        kws['**'] = v
            if isinstance(n.func, ast.Attribute):
                for s2, f in self.get_attr(s, vs[0], n.func.attr, n.func):
                    out += self.call_value(s2, f, args, kws, n)
            else:
                out += self.call_value(s, vs[0], args, kws, n)
        return out

    def starred_seq(self, st, vs, i, node):
        """A generator passed as *argument is run to its end."""
        o = self.obj(st, vs[i])
        if o is None or o.kind not in ('gen', 'map') or any(has_ref(v) for v in vs[1:] if v is not vs[i]):
            return [(st, vs)]
        trial = st.copy()
        trial.env['$callee'] = vs[0]
        out = []
        for s, r in X.collect(self, trial, vs[i], 'list', node):
            ex = self.exact_items(s, r)
            if ex is None:
                return [(st, vs)]
            vs2 = list(vs)
            vs2[0] = s.env.pop('$callee')
            vs2[i] = ('tup', tuple(ex))
            out.append((s, vs2))
        return out

    def ev_super(self, n, st):
        fi = st.fn
        cls = fi.cls
        if n.args:
            res = []
            for s, vs in self.ev_seq(n.args, st):
                c = vs[0]
                selfv = vs[1] if len(vs) > 1 else None
                if c[0] == 'cls':
                    res.append((s, ('super', c[1], selfv)))
                else:
                    res.append((s, ('fresh', 'super', self.site(s, n))))
            return res
        a = fi.node.args
        params = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        selfv = st.env.get(params[0]) if params else None
        if cls is None or selfv is None:
            return [(st, ('fresh', 'super', self.site(st, n)))]
        return [(st, ('super', cls.qualname, selfv))]

    # comprehensions ---------------------------------------------------------------

    def ev_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def ev_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def ev_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def ev_GeneratorExp(self, n, st):
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        out = []
        # the outermost iterable is evaluated now
        for s, v in self.ev(n.generators[0].iter, st):
            snap = {k: x for k, x in s.env.items() if k in used}
            snap['$it0'] = v
            if id(n) not in self._genexp:
                self._genexp[id(n)] = n
            out.append((s, self.alloc(s, n, Obj('gen', ('gx', id(n), s.fn.qualname), snap), 'gx')))
        return out

    _genexp = {}

    def comp(self, n, st, kind):
        out = []
        for s, it0 in self.ev(n.generators[0].iter, st):
            s.stack = s.stack + (Frame(s.fn, s.env, n),)
            s.env = {k: v for k, v in s.env.items() if k[0] != '$'}
            s.env['$it0'] = it0
            saved, self.raises = self.raises, []
            acc = self.new_list(s, n, (), 'list' if kind == 'list' else kind)
            s.env['$acc'] = acc

            def emit(x):
                if kind == 'dict':
                    res = []
                    for y, (k, v) in self.ev_seq([n.key, n.value], x):
                        X.dict_set(self, y, y.env['$acc'], k, v)
                        res.append(y)
                    return res
                res = []
                for y, v in self.ev(n.elt, x):
                    X.list_add(self, y, y.env['$acc'], v)
                    res.append(y)
                return res
            ends = self.comp_loop(n, 0, s, emit)
            mine, self.raises = self.raises, saved
            for x in ends:
                a = x.env['$acc']
                self.pop(x)
                out.append((x, a))
            for x, e in mine:
                self.pop(x)
                self.raises.append((x, e))
        return out

    def comp_loop(self, n, i, st, emit):
        """Run the generators i.. of a comprehension; emit(state) -> states. Returns end states."""
        if i == len(n.generators):
            return emit(st)
        g = n.generators[i]
        if i == 0:
            its = [(st, st.env['$it0'])]
        else:
            its = self.ev(g.iter, st)
        out = []
        for s, it in its:
            def body(x, v, i=i, g=g):
                res = []
                for y in self.assign(g.target, v, x):
                    cur = [y]
                    no = []
                    for c in g.ifs:
                        nx = []
                        for z in cur:
                            t, f = self.cond(c, z)
                            nx += t
                            no += f
                        cur = nx
                    for z in cur:
                        res += self.comp_loop(n, i + 1, z, emit)
                    res += no
                # comprehension variables are dead between iterations
                names = [m.id for gg in n.generators[i:] for m in ast.walk(gg.target) if isinstance(m, ast.Name)]
                for y in res:
                    for nm in names:
                        y.env.pop(nm, None)
                return res
            out += self.for_each(s, it, g.target, body, None)
        return out

    # generators -------------------------------------------------------------------

    def run_gen(self, st, ref, on_yield):
        """Run generator object ref, calling on_yield(state, value) -> states in the consumer frame."""
        o = self.obj(st, ref)
        node = None
        consumer_raises = self.raises
        if isinstance(o.cls, tuple) and o.cls[0] == 'gx':
            node = self._genexp[o.cls[1]]
            fi = st.fn if st.fn is not None and st.fn.qualname == o.cls[2] else (self.prog.functions.get(o.cls[2]) or st.fn)
        elif isinstance(o.cls, tuple):
            fi = self._clofi[o.cls[1]]
            node = fi.node
        else:
            fi = self.prog.functions[o.cls]
            node = fi.node
            self.fn_seen.add(fi.qualname)
        if len(st.stack) > MAX_DEPTH:
            return [st]
        st.stack = st.stack + (Frame(st.fn, st.env, node),)
        st.env, st.fn = dict(o.attrs), fi
        depth = len(st.stack)

        def cb(s, v):
            genv = s.env
            gfn = s.fn
            self.pop(s)
            key = '$g%d' % depth
            while key in s.env:
                # another generator is running for the same consumer
                key += "'"
            s.env[key] = ('frame', tuple(sorted(((k, x) for k, x in genv.items()), key=lambda p: p[0])))
            mine, self.raises = self.raises, consumer_raises
            g = self.gens.pop(depth, None)
            try:
                res = on_yield(s, v)
            finally:
                self.raises = mine
                if g is not None:
                    self.gens[depth] = g
            out = []
            for x in res:
                fr = x.env.pop(key)
                x.stack = x.stack + (Frame(x.fn, x.env, node),)
                x.env = dict(fr[1])
                x.fn = gfn
                out.append(x)
            return out
        old = self.gens.get(depth)
        self.gens[depth] = cb
        self.raises = []
        try:
            if isinstance(node, ast.GeneratorExp):
                def emit(x):
                    res = []
                    for y, v in self.ev(node.elt, x):
                        res += cb(y, v)
                    return res
                ends = self.comp_loop(node, 0, st, emit)
            else:
                out = self.block(node.body, [st])
                ends = out.next + [s for s, _ in out.ret]
            mine = self.raises
        finally:
            self.raises = consumer_raises
            if old is not None:
                self.gens[depth] = old
            else:
                self.gens.pop(depth, None)
        for s in ends:
            self.pop(s)
        for s, e in mine:
            self.pop(s)
            self.raises.append((s, e))
        return self.merge(ends)

    def ev_Yield(self, n, st):
        vals = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            cb = self.gens.get(len(s.stack))
            if cb is None:
                out.append((s, NONE))
                continue
            out += [(x, NONE) for x in cb(s, v)]
        return out

    def ev_YieldFrom(self, n, st):
        out = []
        for s, it in self.ev(n.value, st):
            def body(x, v):
                cb = self.gens.get(len(x.stack))
                return cb(x, v) if cb is not None else [x]
            out += [(x, NONE) for x in self.for_each(s, it, n, body, None)]
        return out

    def ev_Await(self, n, st):
        return self.ev(n.value, st)

    # ------------------------------------------------------------------ truth

    def truth(self, st, v, node=None):
        """Fork on the truth of v: (true states, false states)."""
        self.tick()
        if v[0] == 'pred':
            atom, neg = v[1], v[2]
            d = st.decide(atom)
            if d is not None:
                return ([st], []) if d != neg else ([], [st])
            return self.fork(st, atom, neg, node)
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return ([st], [])
            if o.kind in ('list', 'set') or o.kind == 'tuple':
                if o.items is not None:
                    return ([st], []) if o.items else ([], [st])
                if o.ne:
                    return ([st], [])
                a = st.copy()
                a.heap[v[1]] = o.but(ne=True)
                return ([a], [st])
            if o.kind == 'dict':
                if any(m for _, _, m in o.items):
                    return ([st], [])
                if not o.items and not o.may:
                    return ([], [st])
                return ([st.copy()], [st])
            if o.kind == 'inst' and o.cls:
                ci = self.prog.classes.get(o.cls)
                for nm in ('__bool__', '__len__'):
                    m = ci.find(nm)
                    if m is not None and m[0] == 'method':
                        t, f = [], []
                        for s, r in self.call_function(m[1], v, [], {}, st, node or ci.node):
                            a, b = self.truth(s, r, node)
                            t += a
                            f += b
                        return (t, f)
                if any(b in ('builtins.dict', 'collections.OrderedDict', 'builtins.list') for b in ci.ext_bases()):
                    if o.items and any(m for _, _, m in o.items):
                        return ([st], [])
                    if not o.items and not o.may and not o.attrs.get('$open'):
                        return ([], [st])
                    return ([st.copy()], [st])
            return ([st], [])
        ci = self.pclass(st, v) if v[0] not in ('c', 'fn', 'cls', 'exc') else None
        if ci is not None:
            for nm in ('__bool__', '__len__'):
                m = ci.find(nm)
                if m is not None and m[0] == 'method':
                    nn = st.decide(('isnone', v))
                    if nn is True:
                        return ([], [st])
                    t, f = [], []
                    for s, r in self.call_function(m[1], v, [], {}, st, node or ci.node):
                        a, b = self.truth(s, r, node)
                        t += a
                        f += b
                    return (t, f)
        if v[0] == 'int':
            if v[1] is not None and v[1] >= 1:
                return ([st], [])
            return ([st.copy()], [st])
        if v[0] == 'exc' or v[0] in ('fn', 'cls', 'mod', 'ext', 'bm'):
            return ([st], [])
        atom = ('truth', v)
        d = st.decide(atom)
        if d is None and self.strdom is not None:
            d = self.strdom.truth(v)
        if d is not None:
            return ([st], []) if d else ([], [st])
        return self.fork(st, atom, False, node)

    def fork(self, st, atom, neg, node):
        if node is not None:
            self.branches.add((st.fn.qualname if st.fn else '', getattr(node, 'lineno', 0)))
        if self.branch_hook is not None:
            r = self.branch_hook(self, st, atom, node)
            if r is not None:
                st.learn(atom, r)
                return ([st], []) if r != neg else ([], [st])
        if self.strdom is not None:
            if atom[0] == 'isnone' and self.strdom.dom(atom[1]):
                return ([st], []) if neg else ([], [st])
            self.strdom.forked(st, atom)
        a = st.copy()
        a.learn(atom, True)
        b = st
        b.learn(atom, False)
        if a.trail is not None or True:
            if len(a.path()) < 60:
                a.note('%s: %s' % (self.where(st, node), X.atom_text(atom, True)))
                b.note('%s: %s' % (self.where(st, node), X.atom_text(atom, False)))
        return ([b], [a]) if neg else ([a], [b])

    def cond(self, n, st):
        """Fork on a condition: (true states, false states)."""
        if isinstance(n, ast.BoolOp):
            cur = [st]
            done = []
            for e in n.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(e, s)
                    if isinstance(n.op, ast.And):
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = nxt
            cur = self.merge(cur)
            done = self.merge(done)
            return (cur, done) if isinstance(n.op, ast.And) else (done, cur)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            t, f = [], []
            for s, v in self.ev(n, st):
                a, b = self.truth(s, v, n)
                t += a
                f += b
            return t, f
        t, f = [], []
        for s, v in self.ev(n, st):
            a, b = self.truth(s, v, n)
            t += a
            f += b
        return t, f

    # ------------------------------------------------------------------ iteration

    def exact_items(self, st, v):
        """Exact element values of an iterable or None."""
        if v[0] == 'tup':
            return v[1]
        if v[0] == 'c':
            if isinstance(v[2], (tuple, list)):
                return tuple(C(x) for x in v[2])
            if isinstance(v[2], str) and len(v[2]) <= (400 if self.strict else 12):
                return tuple(C(x) for x in v[2])
            if isinstance(v[2], (set, frozenset)):
                return tuple(C(x) for x in sorted(v[2], key=repr))
            return None
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return None
            if o.kind in ('list', 'set', 'tuple', 'nt', 'deque'):
                return o.items
            if o.kind == 'dict' and not o.may and all(m for _, _, m in o.items):
                return tuple(k for k, _, _ in o.items)
            return None
        if v in self.exact_src:
            return self.exact_src[v]
        b = X.base_src(v)
        if b != v and b in self.exact_src and not X.reordered(v):
            return self.exact_src[b]
        if v[0] == 'call' and v[1] == 'builtins.range' and all(a[0] == 'c' and isinstance(a[2], int) for a in v[2]):
            r = range(*[a[2] for a in v[2]])
            if len(r) <= 64:
                return tuple(C(i) for i in r)
        if v[0] == 'meth' and v[2] in ('items', 'keys', 'values') and not v[3]:
            pass
        return None

    def summary_of(self, st, v):
        """(may, must, nonempty) of an iterable; unknown sources give one generic element."""
        ex = self.exact_items(st, v)
        if ex is not None:
            return frozenset(ex), frozenset(ex), bool(ex)
        o = self.obj(st, v)
        if o is not None and o.kind in ('list', 'set', 'deque'):
            return o.may, o.must, o.ne
        if o is not None and o.kind == 'dict':
            return frozenset(k for k, _, _ in o.items) | frozenset(k for k, _ in o.may), \
                frozenset(k for k, _, m in o.items if m), any(m for _, _, m in o.items)
        if o is not None and o.kind == 'iter':
            return self.summary_of(st, o.attrs['src'])
        b = X.base_src(v)
        wit = self.witness.get(b, ())
        gen = () if b in self.only_witness else (('fx', ('elem', b, ('q',)), frozenset()),)
        return frozenset(gen) | frozenset(wit), frozenset(wit), bool(wit)

    def for_each(self, st, it, node, body, live):
        """Run body(state, element) -> states for the elements of `it`; returns the states after exhaustion."""
        self.tick()
        o = self.obj(st, it)
        if o is not None:
            if o.kind == 'gen':
                ends = self.run_gen(st, it, body)
                if self.strict:
                    for s in ends:
                        if it[1] in s.heap:
                            s.heap[it[1]] = Obj('iter', None, {'src': ('tup', ()), 'pos': C(0)}, ())
                return ends
            if o.kind == 'inst' and o.cls:
                ci = self.prog.classes.get(o.cls)
                m = ci.find('__iter__')
                if m is not None and m[0] == 'method':
                    out = []
                    for s, r in self.call_function(m[1], it, [], {}, st, node):
                        if r == it:
                            out += self.for_sym(s, ('attr', it, '$iter'), node, body, live)
                        else:
                            out += self.for_each(s, r, node, body, live)
                    return out
                if o.items is not None and any(b in ('builtins.dict', 'collections.OrderedDict') for b in ci.ext_bases()):
                    return self.for_each(st, self.new_list(st, node, [k for k, _, _ in o.items]), node, body, live) \
                        if not o.may and not o.attrs.get('$open') else self.for_sym(st, ('attr', it, '$keys'), node, body, live)
                m = ci.find('__getitem__')
                return self.for_sym(st, ('attr', it, '$iter'), node, body, live)
            if o.kind == 'map':
                return X.for_map(self, st, o, node, body, live)
            if o.kind == 'iter':
                return self.for_iter(st, it, node, body, live)
        ex = self.exact_items(st, it)
        if ex is not None and len(ex) <= (400 if self.strict else 40):
            cur = [st]
            done = []
            live_list = self.strict and o is not None and o.kind == 'list'
            x = -1
            while cur and (live_list and x < 1000 or x + 1 < len(ex)):
                x += 1
                nxt = []
                for s in cur:
                    e2 = self.exact_items(s, it)
                    if live_list and e2 is not None and x >= len(e2):
                        done.append(s)
                        continue
                    if e2 is None and x >= len(ex):
                        done.append(s)
                        continue
                    item = e2[x] if e2 is not None and x < len(e2) else ex[x]
                    if any(has_ref(y) for y in ex[x:]):
                        s.env['$ex%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))] = ('tup', tuple(ex))
                    nxt += body(s, item)
                cur = self.merge(nxt, live)
            cur = done + cur
            for s in cur:
                s.env.pop('$ex%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), None)
            return cur
        z = X.zip_like(self, st, it)
        if z is not None:
            return z(self, st, node, body, live)
        ci = self.pclass(st, it) if o is None else None
        if ci is not None and it not in self.witness and it not in self.exact_src:
            m = ci.find('__iter__')
            if m is not None and m[0] == 'method':
                out = []
                for s, r in self.call_function(m[1], it, [], {}, st, node):
                    if r == it or mentions(r, ('$iter',)):
                        out += self.for_sym(s, it, node, body, live)
                    else:
                        out += self.for_each(s, r, node, body, live)
                return out
        return self.for_sym(st, it, node, body, live)

    def for_iter(self, st, it, node, body, live):
        """Iterate over an iterator object (may be partly consumed)."""
        o = self.obj(st, it)
        src = o.attrs['src']
        ex = self.exact_items(st, src)
        if ex is not None:
            cur = [st]
            outs = []
            hold = '$i%d_%d_%d' % self.loop_token(st, node)
            while hold in st.env:
                hold += "'"
            st.env[hold] = it
            while cur:
                nxt = []
                for s in cur:
                    oo = self.obj(s, it)
                    pos = oo.attrs['pos'][2]
                    e2 = self.exact_items(s, src)
                    if e2 is None or pos >= len(e2):
                        outs.append(s)
                        continue
                    s.heap[it[1]] = oo.setattr('pos', C(pos + 1))
                    nxt += body(s, e2[pos])
                cur = self.merge(nxt, live)
            for s in outs:
                s.env.pop(hold, None)
            return outs
        return self.for_sym(st, src, node, body, live, itref=it)

    def loop_token(self, st, node):
        return (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))

    def for_sym(self, st, src, node, body, live, itref=None):
        """Fixpoint over an unknown or summary collection."""
        L = self.loop_token(st, node)
        cur = ('it',) + L
        old = ('old',) + L
        wkey = '$w%d_%d_%d' % L
        hold = '$s%d_%d_%d' % L
        st.env[hold] = src
        rkey = '$w%d_%d_%dr' % L
        if itref is None:
            st.env[wkey] = ('tup', ())
        else:
            st.env[rkey] = itref
        exits = []
        fix = Fix(self, L, live, cur, old)
        fix.push(st)
        self.symloop += 1
        try:
            while True:
                s = fix.pop()
                if s is None:
                    break
                may, must, ne = self.summary_of(s, s.env[hold])
                itref = s.env.get(rkey)
                visited = s.env[wkey][1] if itref is None else (self.obj(s, itref).attrs.get('wv', ('tup', ()))[1])
                left = [m for m in must if m not in visited]
                done = self.obj(s, itref).attrs.get('done') == TRUE if itref is not None else False
                if not left and not (ne and not visited and not fix.iterated(s)):
                    e = s.copy()
                    if itref is not None:
                        e.heap[itref[1]] = self.obj(e, itref).setattr('done', TRUE)
                    if self.empty_fork(e, src, fix, s):
                        exits.append(e)
                if done:
                    continue
                for m in sorted(may, key=okey):
                    if m in must and m in visited:
                        continue
                    x = s.copy()
                    if m in must:
                        nv = ('tup', visited + (m,)) if m not in visited else ('tup', visited)
                        if itref is None:
                            x.env[wkey] = nv
                        else:
                            x.heap[itref[1]] = self.obj(x, itref).setattr('wv', nv)
                        v = m
                    else:
                        v = self.instantiate_item(x, m, cur)
                    if not self.nonempty_ok(x, src):
                        continue
                    x.env['$i%d_%d_%d' % L] = TRUE
                    for y in body(x, v):
                        fix.push(y)
        finally:
            self.symloop -= 1
        for e in exits:
            e.env.pop(wkey, None)
            e.env.pop(rkey, None)
            e.env.pop(hold, None)
            e.env.pop('$i%d_%d_%d' % L, None)
        return self.merge(exits, live)

    def empty_fork(self, e, src, fix, s):
        """Exit of a loop over src: without an iteration only if src may be empty."""
        if not fix.iterated(s):
            d = e.decide(('truth', src)) if src[0] not in ('ref',) else None
            if d is True:
                return False
            if src[0] not in ('ref', 'tup', 'c') and d is None:
                e.learn(('truth', src), False)
        return True

    def nonempty_ok(self, x, src):
        if src[0] in ('ref', 'tup', 'c'):
            return True
        d = x.decide(('truth', src))
        if d is False:
            return False
        if d is None:
            x.learn(('truth', src), True)
        return True

    def instantiate_item(self, st, m, cur):
        """Concrete instance of a summary element for token cur (facts attached are restored)."""
        if m[0] == 'fx':
            mp = {('q',): cur}
            for atom, val in m[2]:
                st.learn(rename(atom, mp), val)
            return rename(m[1], mp)
        # a plain value: tokens of finished loops denote some element; make it individual
        return m

    # ------------------------------------------------------------------ statements

    def block(self, stmts, states):
        """Execute statements; returns Out."""
        out = Out()
        cur = states
        for n in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                o = self.stmt(n, s)
                nxt += o.next
                out.add(o)
            if len(nxt) > 1:
                fi = nxt[0].fn
                live = self.lv(fi).after.get(id(n)) if fi is not None and not isinstance(fi.node, ast.Lambda) and hasattr(fi.node, 'body') else None
                nxt = self.merge(nxt, live)
            cur = nxt
        out.next = cur
        return out

    def stmt(self, n, st):
        self.tick()
        m = getattr(self, 'st_' + n.__class__.__name__, None)
        if m is None:
            self.unk('statement ' + n.__class__.__name__, st, n)
            o = Out()
            o.next = [st]
            return o
        return m(n, st)

    def simple(self, states):
        o = Out()
        o.next = states
        return o

    def st_Expr(self, n, st):
        return self.simple([s for s, _ in self.ev(n.value, st)])

    def st_Pass(self, n, st):
        return self.simple([st])

    def st_Global(self, n, st):
        return self.simple([st])

    st_Nonlocal = st_Global

    def st_Assert(self, n, st):
        t, f = self.cond(n.test, st)
        for s in f:
            self.throw(s, 'builtins.AssertionError', (), n)
        return self.simple(t)

    def st_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.prog.mod_or_ext(a.name)
            else:
                top = a.name.split('.')[0]
                st.env[top] = self.prog.mod_or_ext(top)
        return self.import_outcome(n, st, n.names[0].name)

    def st_ImportFrom(self, n, st):
        for a in n.names:
            r = self.prog._from(st.fn.module, n, a.name)
            if r[0] == 'from':
                m = self.prog.modules[r[1]]
                r = self.prog.lookup(m, r[2]) or ('ext', r[1] + '.' + r[2])
            st.env[a.asname or a.name] = self.resolved(st, r)
        return self.import_outcome(n, st, n.module or '')

    def import_outcome(self, n, st, name):
        if not n.__dict__.get('level') and name.split('.')[0] in X.OPTIONAL_MODULES:
            b = st.copy()
            self.throw(b, 'builtins.ImportError', (), n)
        return self.simple([st])

    def st_FunctionDef(self, n, st):
        st.env[n.name] = self.closure(st, n)
        return self.simple([st])

    def st_ClassDef(self, n, st):
        st.env[n.name] = ('fresh', 'localclass', (n.name,))
        return self.simple([st])

    def st_Return(self, n, st):
        o = Out()
        if n.value is None:
            o.ret = [(st, NONE)]
        else:
            o.ret = self.ev(n.value, st)
        return o

    def st_Break(self, n, st):
        o = Out()
        o.brk = [st]
        return o

    def st_Continue(self, n, st):
        o = Out()
        o.cont = [st]
        return o

    def st_Raise(self, n, st):
        if n.exc is None:
            e = st.env.get('$exc')
            self.raises.append((st, e if e is not None else ('exc', 'builtins.RuntimeError', (), True)))
            return Out()
        for s, v in self.ev(n.exc, st):
            if v[0] == 'cls':
                for s2, e in self.instantiate(self.prog.classes[v[1]], [], {}, s, n):
                    self.raises.append((s2, e))
            elif v[0] == 'ext':
                self.raises.append((s, ('exc', X.canon_exc(v[1]), (), True)))
            elif v[0] == 'exc':
                self.raises.append((s, v))
            else:
                self.raises.append((s, ('exc', 'builtins.Exception', (v,), False)))
        return Out()

    def st_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                nxt = []
                for x in cur:
                    nxt += self.assign(t, v, x)
                cur = nxt
            out += cur
        return self.simple(out)

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return self.simple([st])
        out = []
        for s, v in self.ev(n.value, st):
            out += self.assign(n.target, v, s)
        return self.simple(out)

    def st_AugAssign(self, n, st):
        out = []
        load = _as_load(n.target)
        for s, (a, b) in self.ev_seq([load, n.value], st):
            ao = self.obj(s, a)
            if ao is not None and isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub)) and ao.kind in ('list', 'set'):
                out += X.inplace(self, s, n.op, a, b, n, n.target)
                continue
            for s2, v in X.binop(self, s, n.op, a, b, n, counter=self.symloop > 0):
                out += self.assign(n.target, v, s2)
        return self.simple(out)

    def st_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        r = self.exact_slice(t, s, None)
                        if r is not None:
                            nxt += r
                            continue
                        for s2, (v,) in self.ev_seq([t.value], s):
                            nxt += X.del_item(self, s2, v, None, t)
                        continue
                    for s2, (v, i) in self.ev_seq([t.value, t.slice], s):
                        nxt += X.del_item(self, s2, v, i, t)
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.ev(t.value, s):
                        if v[0] == 'ref' and v[1] in s2.heap:
                            s2.heap[v[1]] = s2.heap[v[1]].delattr(t.attr)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        return self.simple(cur)

    def exact_slice(self, t, st, v):
        """Replace (v None: remove) part of a list of known items: list of states, None if it is not known."""
        if not self.strict:
            return None
        parts = [t.slice.lower, t.slice.upper, t.slice.step]
        new = () if v is None else self.exact_items(st, v) if v[0] in ('ref', 'tup') else None
        if new is None:
            return None
        work = st.copy()
        cur = self.ev_seq([t.value] + [x for x in parts if x is not None], work)
        if len(cur) != 1:
            return None
        s, vs = cur[0]
        o = self.obj(s, vs[0])
        if o is None or o.kind != 'list' or o.items is None or any(x[0] != 'c' for x in vs[1:]):
            return None
        it = iter(vs[1:])
        sl = slice(*[None if x is None else next(it)[2] for x in parts])
        items = list(o.items)
        try:
            if v is None:
                del items[sl]
            else:
                items[sl] = list(new)
        except (ValueError, TypeError):
            return None
        s.heap[vs[0][1]] = o.but(items=tuple(items))
        return [s]

    def assign(self, t, v, st):
        """Assign v to target t; list of states."""
        if isinstance(t, ast.Name):
            if st.fn is not None and t.id in st.fn.globals:
                st.sa[(('mod', st.fn.module.name), t.id)] = v
                if self.store_hook is not None:
                    self.store_hook(self, st, ('mod', st.fn.module.name), t.id, v, t)
                return [st]
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            ex = self.exact_items(st, v)
            if ex is None:
                o = self.obj(st, v)
                if o is not None and o.kind in ('gen', 'map'):
                    # unpacking runs the generator to its end
                    out = []
                    for s, r in X.collect(self, st.copy(), v, 'list', t):
                        if self.exact_items(s, r) is None:
                            out = None
                            break
                        out.append((s, ('tup', tuple(self.exact_items(s, r)))))
                    if out is not None:
                        return [z for s, r in out for z in self.assign(t, r, s)]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if ex is not None and not star and len(ex) == len(t.elts):
                cur = [st]
                for e, x in zip(t.elts, ex):
                    nxt = []
                    for s in cur:
                        nxt += self.assign(e, x, s)
                    cur = nxt
                return cur
            if ex is not None and len(star) == 1 and len(ex) >= len(t.elts) - 1:
                i = star[0]
                j = len(ex) - (len(t.elts) - i - 1)
                cur = [st]
                vals = list(ex[:i]) + [None] + list(ex[j:])
                for k, e in enumerate(t.elts):
                    nxt = []
                    for s in cur:
                        if k == i:
                            nxt += self.assign(e.value, self.new_list(s, t, ex[i:j]), s)
                        else:
                            nxt += self.assign(e, vals[k], s)
                    cur = nxt
                return cur
            if ex is not None and not star:
                self.throw(st, 'builtins.ValueError', (C('unpack'),))
                return []
            r = X.unpack_raises(self, st, v, len(t.elts), t)
            if r is not None:
                for s in r:
                    self.throw(s, 'builtins.ValueError', (C('unpack'),))
            cur = [st]
            for i, e in enumerate(t.elts):
                nxt = []
                for s in cur:
                    tt = e.value if isinstance(e, ast.Starred) else e
                    val = ('idx', v, C(i)) if not isinstance(e, ast.Starred) else ('slice', v, i)
                    val = X.simplify_idx(self, s, val)
                    nxt += self.assign(tt, val, s)
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            if has_ref(v):
                st.env['$av'] = v
            for s, o in self.ev(t.value, st):
                v2 = s.env.pop('$av', v)
                out += self.set_attr(s, o, t.attr, v2, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if has_ref(v):
                st.env['$av'] = v
            if isinstance(t.slice, ast.Slice):
                r = self.exact_slice(t, st, v)
                if r is not None:
                    for s in r:
                        s.env.pop('$av', None)
                    return r
                for s, o in self.ev(t.value, st):
                    v2 = s.env.pop('$av', v)
                    full = t.slice.lower is None and t.slice.upper is None and t.slice.step is None
                    out += X.set_slice(self, s, o, v2, full, t)
                return out
            for s, (o, i) in self.ev_seq([t.value, t.slice], st):
                v2 = s.env.pop('$av', v)
                out += X.set_item(self, s, o, i, v2, t)
            return out
        return [st]

    def st_If(self, n, st):
        t, f = self.cond(n.test, st)
        o = Out()
        if t:
            t = self.merge(t)
            b = self.block(n.body, t)
            o.next += b.next
            o.add(b)
        if f:
            f = self.merge(f)
            b = self.block(n.orelse, f)
            o.next += b.next
            o.add(b)
        return o

    def st_For(self, n, st):
        o = Out()
        srcs = self.ev(n.iter, st)
        if self.strict and leaves(n):
            out = []
            for s, it in srcs:
                g = self.obj(s, it)
                m = X.materialize(self, s, it, n) if g is not None and g.kind == 'gen' else None
                out += [(s, it)] if m is None else m
            srcs = out
        for s, it in srcs:
            live = self.lv(s.fn).head.get(id(n)) if s.fn is not None and not isinstance(s.fn.node, ast.Lambda) else None
            brk = []

            def body(x, v):
                res = []
                for y in self.assign(n.target, v, x):
                    b = self.block(n.body, [y])
                    o.ret += b.ret
                    brk.extend(b.brk)
                    res += b.next + b.cont
                return res
            hold = None
            if it[0] == 'ref':
                hold = '$f%d_%d' % (n.lineno, n.col_offset)
                s.env[hold] = it
            ends = self.for_each(s, it, n, body, live)
            if n.orelse:
                b = self.block(n.orelse, ends)
                ends = b.next
                o.add(b)
            L = self.loop_token(s, n)
            for x in ends + brk:
                self.leave_loop(x, n)
            o.next += ends + brk
        return o

    st_AsyncFor = st_For

    def leave_loop(self, x, n):
        for k in list(x.env):
            if k[0] == '$' and k[1] in 'wsife' and ('%d_%d' % (n.lineno, n.col_offset)) in k:
                del x.env[k]

    def st_While(self, n, st):
        o = Out()
        L = self.loop_token(st, n)
        live = self.lv(st.fn).head.get(id(n)) if st.fn is not None and not isinstance(st.fn.node, ast.Lambda) else None
        fix = Fix(self, L, live, ('it',) + L, ('old',) + L, exact=12)
        fix.push(st)
        ends = []
        brk = []
        while True:
            s = fix.pop()
            if s is None:
                break
            t, f = self.cond(n.test, s.copy())
            ends += f
            for x in t:
                x.env['$i%d_%d_%d' % L] = TRUE
                b = self.block(n.body, [x])
                o.ret += b.ret
                brk += b.brk
                for y in b.next + b.cont:
                    fix.push(y)
        ends = self.merge(ends, live)
        if n.orelse and ends:
            b = self.block(n.orelse, ends)
            ends = b.next
            o.add(b)
        for x in ends + brk:
            self.leave_loop(x, n)
        o.next = ends + brk
        return o

    def st_With(self, n, st):
        return self.with_items(n, 0, st)

    st_AsyncWith = st_With

    def with_items(self, n, i, st):
        if i == len(n.items):
            return self.block(n.body, [st])
        item = n.items[i]
        o = Out()
        for s, ctx in self.ev(item.context_expr, st):
            for s2, v in X.enter(self, s, ctx, n):
                key = '$c%d_%d_%d' % (n.lineno, n.col_offset, i)
                s2.env[key] = ctx
                states = [s2]
                if item.optional_vars is not None:
                    states = self.assign(item.optional_vars, v, s2)
                saved, self.raises = self.raises, []
                b = Out()
                for x in states:
                    r = self.with_items(n, i + 1, x)
                    b.next += r.next
                    b.add(r)
                mine, self.raises = self.raises, saved

                def leave(x):
                    c = x.env.pop(key, ctx)
                    return X.leave(self, x, c, n)
                for x in b.next:
                    o.next += leave(x)
                for kind in ('brk', 'cont'):
                    for x in getattr(b, kind):
                        getattr(o, kind).extend(leave(x))
                for x, rv in b.ret:
                    x.env['$rv'] = rv
                    for y in leave(x):
                        o.ret.append((y, y.env.pop('$rv', rv)))
                for x, e in mine:
                    c = x.env.get(key, ctx)
                    x.env['$rv'] = e
                    sup = X.suppresses(self, x, c, e)
                    for y in leave(x):
                        e2 = y.env.pop('$rv', e)
                        if sup is True:
                            o.next.append(y)
                        else:
                            if sup is None:
                                o.next.append(y.copy())
                            self.raises.append((y, e2))
        return o

    def st_Try(self, n, st):
        saved, self.raises = self.raises, []
        body = self.block(n.body, [st])
        caught, self.raises = self.raises, []
        o = Out()
        o.add(body)
        if n.orelse and body.next:
            e = self.block(n.orelse, body.next)
            o.next += e.next
            o.add(e)
        else:
            o.next += body.next
        # merge exceptional states first
        ex = []
        for s, e in caught:
            s.env['$e'] = e
            ex.append(s)
        live = None
        if len(ex) > 1 and not self.keep_paths:
            for s in ex:
                s.gc()
            ex = merge_states(ex)
        for s in ex:
            e = s.env.pop('$e')
            rest = self.handlers(n, s, e, o)
            for x, e2 in rest:
                self.raises.append((x, e2))
        outer, self.raises = self.raises, saved
        if not n.finalbody:
            self.raises += outer
            return o
        f = Out()

        def final(s):
            b = self.block(n.finalbody, [s])
            f.ret += b.ret
            f.brk += b.brk
            f.cont += b.cont
            return b.next
        for s in o.next:
            f.next += final(s)
        for s in o.brk:
            f.brk += final(s)
        for s in o.cont:
            f.cont += final(s)
        for s, v in o.ret:
            s.env['$rv'] = v
            for x in final(s):
                f.ret.append((x, x.env.pop('$rv', v)))
        for s, e in outer:
            s.env['$rv'] = e
            for x in final(s):
                self.raises.append((x, x.env.pop('$rv', e)))
        return f

    st_TryStar = st_Try

    def handlers(self, n, st, e, o):
        """Run matching handlers; returns exceptions not caught."""
        cur = [(st, e)]
        for h in n.handlers:
            if not cur:
                break
            rest = []
            for s, x in cur:
                m = True
                if h.type is not None:
                    types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    m = False
                    for t in types:
                        r = self.exc_match(s, x, t)
                        if r is True:
                            m = True
                            break
                        if r is None:
                            m = None
                if m is False:
                    rest.append((s, x))
                    continue
                if m is None:
                    rest.append((s.copy(), x))
                prev = s.env.get('$exc')
                s.env['$exc'] = x
                if h.name:
                    s.env[h.name] = x
                b = self.block(h.body, [s])
                for y in b.next + b.brk + b.cont + [z for z, _ in b.ret]:
                    y.env.pop('$exc', None)
                    if prev is not None:
                        y.env['$exc'] = prev
                    if h.name:
                        y.env.pop(h.name, None)
                o.next += b.next
                o.add(b)
            cur = rest
        return cur

    def exc_match(self, st, e, tnode):
        """True/False/None: does handler type tnode catch e."""
        saved, self.raises = self.raises, []
        r = self.ev(tnode, st.copy())
        self.raises = saved
        if not r:
            return None
        v = r[0][1]
        names = []
        ex = self.exact_items(r[0][0], v)
        for x in (ex if ex is not None else [v]):
            if x[0] in ('cls', 'ext'):
                names.append(x[1])
            else:
                return None
        best = False
        for nm in names:
            m = X.exc_is(self.prog, e[1], nm)
            if m is True:
                return True
            if m is None or (e[3] is False and X.exc_is(self.prog, X.canon_exc(nm), e[1]) is True):
                best = None
        return best

    def st_Match(self, n, st):
        o = Out()
        for s, v in self.ev(n.subject, st):
            cur = [s]
            for c in n.cases:
                nxt = []
                for x in cur:
                    t, f = self.match_case(c.pattern, v, x)
                    if c.guard is not None:
                        tt = []
                        for y in t:
                            a, b = self.cond(c.guard, y)
                            tt += a
                            f += b
                        t = tt
                    if t:
                        b = self.block(c.body, t)
                        o.next += b.next
                        o.add(b)
                    nxt += f
                cur = nxt
            o.next += cur
        return o

    def match_case(self, p, v, st):
        k = p.__class__.__name__
        if k == 'MatchValue':
            t, f = [], []
            for s, c in self.ev(p.value, st):
                for s2, r in self.compare(s, ast.Eq(), v, c, p):
                    a, b = self.truth(s2, r, p)
                    t += a
                    f += b
            return t, f
        if k == 'MatchSingleton':
            t, f = [], []
            for s2, r in self.compare(st, ast.Is(), v, C(p.value), p):
                a, b = self.truth(s2, r, p)
                t += a
                f += b
            return t, f
        if k == 'MatchOr':
            t = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    a, b = self.match_case(q, v, s)
                    t += a
                    nxt += b
                cur = nxt
            return t, cur
        if k == 'MatchAs':
            if p.pattern is None:
                if p.name:
                    st.env[p.name] = v
                return [st], []
            t, f = self.match_case(p.pattern, v, st)
            for s in t:
                if p.name:
                    s.env[p.name] = v
            return t, f
        self.unk('pattern ' + k, st, p)
        return [st.copy()], [st]


def leaves(n):
    """Whether the loop can be left before its end."""
    return any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b))


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)


def both(a, b):
    """Entries visited for certain after joining two states."""
    if a is None or b is None or a[0] != 'tup' or b[0] != 'tup':
        return ('tup', ())
    return ('tup', tuple(x for x in a[1] if x in b[1]))


class Fix(object):
    """Work list of loop-head states with merging and widening."""

    def __init__(self, ip, L, live, cur, old, exact=0):
        self.ip = ip
        self.L = L
        self.live = live
        self.cur = cur
        self.old = old
        self.head = {}
        self.work = []
        self.first = True
        self.count = 0
        self.exact = exact
        self.ikey = '$i%d_%d_%d' % L

    def iterated(self, s):
        return self.ikey in s.env

    def push(self, s):
        self.normalize(s)
        k = s.key()
        o = self.head.get(k)
        if o is not None:
            if all(a in s.facts and s.facts[a] == v or a not in s.facts and a[0] != 'val' and s.decide(a) == v
                   for a, v in o.facts.items()):
                return
            o.facts = join_facts(o, s)
            if o not in self.work:
                self.work.append(o)
            return
        self.count += 1
        if len(self.head) >= (MAX_HEADS if not self.exact else MAX_HEADS + self.exact):
            # widen: join with a head state with the same automaton
            for k2, o in self.head.items():
                if o.auto == s.auto and set(o.env) == set(s.env) and len(o.stack) == len(s.stack):
                    j = self.ip.join_states(o, s, ('widen',) + self.L)
                    k3 = j.key()
                    if k3 == k2:
                        nf = {a: v for a, v in o.facts.items() if a in s.facts and s.facts[a] == v}
                        if len(nf) != len(o.facts):
                            o.facts = nf
                            if o not in self.work:
                                self.work.append(o)
                        return
                    if k3 in self.head:
                        return
                    s = j
                    k = k3
                    break
            if len(self.head) > 4 * MAX_HEADS:
                raise Budget('loop at line %d does not stabilize' % self.L[0])
        self.head[k] = s
        self.work.append(s)

    def pop(self):
        if not self.work:
            return None
        return self.work.pop()

    def normalize(self, s):
        """Move to the loop head: drop dead variables, turn the current element into the summary one."""
        ip = self.ip
        if self.live is not None:
            for k in list(s.env):
                if k not in self.live and k[0] != '$':
                    del s.env[k]
        s.gc()
        cur, old = self.cur, self.old
        # collections: close over the current element
        for hid, o in list(s.heap.items()):
            if o.kind in ('list', 'set', 'deque') and (o.items if o.items is not None else o.may):
                src = o.items if o.items is not None else o.may
                if any(mentions(x, cur) for x in src):
                    may = set()
                    must = set()
                    for x in src:
                        if mentions(x, cur):
                            may.add(self.close(s, x))
                        else:
                            may.add(x)
                            if o.items is not None or x in o.must:
                                if x[0] != 'fx':
                                    must.add(x)
                    s.heap[hid] = Obj(o.kind, o.cls, o.attrs, None, frozenset(may), frozenset(must), True)
            elif o.kind == 'dict' or (o.kind == 'inst' and o.items):
                if o.items and any(mentions(x, cur) for x in o.items):
                    items = []
                    may = set(o.may)
                    for k, v, m in o.items:
                        if mentions(k, cur) or mentions(v, cur):
                            if k[0] == 'c':
                                items.append((k, v, m))
                            else:
                                may.add(('fxp', self.close(s, ('tup', (k, v)))))
                        else:
                            items.append((k, v, m))
                    s.heap[hid] = o.but(items=tuple(items), may=frozenset((x if x[0] == 'fxp' else x) for x in may))
                if any(isinstance(x, tuple) and mentions(x, cur) for x in o.may):
                    pass
        roots = list(s.roots())
        for o in s.heap.values():
            roots.extend(o.values())
        used = any(mentions(r, cur) for r in roots if isinstance(r, (tuple, frozenset)))
        if not used:
            s.close_order(lambda t: mentions(t, cur))
            s.facts = {a: v for a, v in s.facts.items() if not mentions(a, cur)}
            oused = any(mentions(r, old) for r in roots if isinstance(r, (tuple, frozenset)))
            if not oused:
                s.close_order(lambda t: mentions(t, old))
                s.facts = {a: v for a, v in s.facts.items() if not mentions(a, old)}
            return
        oldused = any(mentions(r, old) for r in roots if isinstance(r, (tuple, frozenset)))
        if oldused:
            s.close_order(lambda t: mentions(t, old) or mentions(t, cur))
            s.facts = {a: v for a, v in s.facts.items() if not mentions(a, old) and not mentions(a, cur)}
            s.rename({cur: old})
        else:
            # facts about terms that are not referenced any more are dropped, with their order consequences kept
            s.close_order(lambda t: mentions(t, old))
            s.facts = {a: v for a, v in s.facts.items() if not mentions(a, old)}
            rset = set()
            for r in roots:
                if isinstance(r, (tuple, frozenset)):
                    for x in subterms(r):
                        rset.add(x)
            dead = lambda t: mentions(t, cur) and t not in rset
            s.close_order(dead)
            s.facts = {a: v for a, v in s.facts.items()
                       if not any(dead(t) for t in a[1:] if isinstance(t, tuple))}
            s.rename({cur: old})

    def close(self, s, x):
        """∃-closure of a value over the current element, with the facts known about it."""
        if x[0] == 'fx':
            return x
        cur = self.cur
        mp = {cur: ('q',)}
        fs = set()
        for a, v in s.facts.items():
            if mentions(a, cur):
                fs.add((rename(a, mp), v))
        return ('fx', rename(x, mp), frozenset(fs))
