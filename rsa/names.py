"""Scopes, name resolution, and what attributes and signatures the library's own
functions and classes have."""
import ast
import builtins
import importlib
import sys

from .model import ClassInfo

IMPLICIT = {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__debug__', '__annotations__', '__dict__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def stdlib(dotted):
    """The module or object of the standard library of that name: (True, object), (False, None) if missing, (None, None) if not known."""
    parts = dotted.split('.')
    if parts[0] not in sys.stdlib_module_names or parts[0] in ('this', 'antigravity', 'idlelib', 'lib2to3'):
        return None, None
    obj = None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        except Exception:
            return None, None
        break
    else:
        return None, None
    for p in parts[i:]:
        if not hasattr(obj, p):
            return False, None
        obj = getattr(obj, p)
    return True, obj


class Scope(object):
    def __init__(self, node, kind, parent, owner=None, fn=None):
        self.node = node
        self.kind = kind             # module, function, class, comp
        self.parent = parent
        self.binds = {}              # name -> [(node, what)]
        self.globals = set()
        self.nonlocals = set()
        self.owner = owner           # ClassInfo of a method or class body
        self.qualname = fn

    def bind(self, name, node, what=None):
        if name in self.globals:
            s = self
            while s.parent is not None:
                s = s.parent
            s.binds.setdefault(name, []).append((node, what))
            return
        if name in self.nonlocals and self.parent is not None:
            self.parent.bind(name, node, what)
            return
        self.binds.setdefault(name, []).append((node, what))

    def find(self, name):
        """The scope that binds name, as seen from this one."""
        s, first = self, True
        while s is not None:
            if name in s.globals:
                while s.parent is not None:
                    s = s.parent
                return s if name in s.binds else None
            if (s.kind != 'class' or first) and name in s.binds:
                return s
            first = first and s.kind == 'comp'
            s = s.parent
        return None


class Ref(object):
    __slots__ = ('node', 'scope', 'parents')

    def __init__(self, node, scope, parents):
        self.node, self.scope, self.parents = node, scope, parents


class Module(object):
    """One module with its scopes and all its nodes in context."""

    def __init__(self, prog, m):
        self.prog = prog
        self.m = m
        self.top = Scope(m.tree, 'module', None, fn=m.name + '.<module>')
        self.star = []
        self.refs = []
        self.scopes = {m.tree: self.top}
        self._declare(m.tree, self.top)
        self._walk(m.tree, self.top, ())

    # -- declarations

    def _declare(self, node, scope):
        body = node.body if isinstance(node.body, list) else [node.body]
        if isinstance(node, FUNCS):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                scope.bind(x.arg, x, ('param',))
        todo = list(body)
        for n in self._own(todo):
            if isinstance(n, ast.Global):
                scope.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                scope.nonlocals.update(n.names)
        for n in self._own(todo):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.ctx, ast.Store):
                    scope.bind(n.id, n, ('assign',))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                scope.bind(n.name, n, ('def', n))
            elif isinstance(n, ast.ClassDef):
                scope.bind(n.name, n, ('class', n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                scope.bind(n.name, n, ('except', n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    t = self.prog.mod_or_ext(a.name if a.asname else a.name.split('.')[0])
                    scope.bind(a.asname or a.name.split('.')[0], n, ('import', t, a.name))
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        self.star.append(n)
                    else:
                        scope.bind(a.asname or a.name, n, ('import', self.prog._from(self.m, n, a.name), a.name))
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                scope.bind(n.name, n, ('assign',))

    def _own(self, body):
        """Nodes of a scope, without those of nested scopes (whose first parts evaluated outside belong here)."""
        todo = list(body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d])
            elif isinstance(n, ast.Lambda):
                todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            elif isinstance(n, ast.ClassDef):
                todo.extend(n.decorator_list + n.bases + [k.value for k in n.keywords])
            elif isinstance(n, COMPS):
                todo.append(n.generators[0].iter)
                # assignment expressions bind outside
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        todo.append(x.target)
            else:
                todo.extend(ast.iter_child_nodes(n))

    # -- contexts

    def _walk(self, node, scope, parents):
        for n in ast.iter_child_nodes(node):
            self._visit(n, scope, parents + (node,))

    def _visit(self, n, scope, parents):
        self.refs.append(Ref(n, scope, parents))
        if isinstance(n, FUNCS):
            a = n.args
            for x in (getattr(n, 'decorator_list', []) + a.defaults + [d for d in a.kw_defaults if d]
                      + [y.annotation for y in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z] if y.annotation]):
                self._visit(x, scope, parents + (n,))
            base = scope.qualname or ''
            if base.endswith('.<module>'):
                base = base[:-9]
            s = Scope(n, 'function', scope, scope.owner, base + '.' + getattr(n, 'name', '<lambda>'))
            self.scopes[n] = s
            self._declare(n, s)
            for x in (n.body if isinstance(n.body, list) else [n.body]):
                self._visit(x, s, parents + (n,))
        elif isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self._visit(x, scope, parents + (n,))
            q = self.m.name + '.' + n.name
            s = Scope(n, 'class', scope, self.prog.classes.get(q) if scope.kind == 'module' else None, q)
            self.scopes[n] = s
            self._declare(n, s)
            for x in n.body:
                self._visit(x, s, parents + (n,))
        elif isinstance(n, COMPS):
            self._visit(n.generators[0].iter, scope, parents + (n,))
            s = Scope(n, 'comp', scope, scope.owner, scope.qualname)
            self.scopes[n] = s
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s.bind(x.id, x, ('assign',))
            for i, g in enumerate(n.generators):
                self._visit(g.target, s, parents + (n, g))
                if i:
                    self._visit(g.iter, s, parents + (n, g))
                for c in g.ifs:
                    self._visit(c, s, parents + (n, g))
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self._visit(x, s, parents + (n,))
        else:
            self._walk(n, scope, parents)

    # -- resolution

    def targets(self, scope, name, depth=0):
        """What a name stands for: set of ('mod', m) ('ext', dotted) ('fn', FunctionInfo) ('cls', ClassInfo) ('var',) ('builtin', name); None if undefined."""
        s = scope.find(name)
        if s is None:
            if hasattr(builtins, name) or name in IMPLICIT:
                return {('builtin', name)}
            for n in self.star:
                base = self.prog._from(self.m, n, 'x')
                if base[0] == 'from':
                    r = self._lib(base[1], name)
                    if r is not None:
                        return r
                else:
                    return {('var',)}
            return None
        out = set()
        for node, what in s.binds[name]:
            if what[0] == 'import':
                out |= self._imported(what[1])
            elif what[0] == 'def' and s.kind == 'module':
                f = self.prog.functions.get(self.m.name + '.' + name)
                out.add(('fn', f) if f is not None and f.node is what[1] else ('var',))
            elif what[0] == 'class' and s.kind == 'module':
                c = self.prog.classes.get(self.m.name + '.' + name)
                out.add(('cls', c) if c is not None else ('var',))
            elif what[0] == 'assign' and depth < 4 and id(node) in assigns(self):
                for v, sc in assigns(self)[id(node)]:
                    # another name of a module, class or function
                    x = self.expr(sc, v, depth + 1) if isinstance(v, (ast.Name, ast.Attribute)) else set()
                    out |= {t for t in x if t[0] not in ('missing', 'builtin')} or {('var',)}
            else:
                out.add(('var',))
        return out

    def _imported(self, t):
        if t[0] == 'from':
            r = self._lib(t[1], t[2])
            return r if r is not None else {('missing', t[1], t[2])}
        return {t}

    def _lib(self, module, name, depth=0):
        mod = modules(self.prog)[module]
        if name in mod.top.binds:
            if depth > 10:
                return {('var',)}
            return mod.targets(mod.top, name)
        if module + '.' + name in self.prog.modules:
            return {('mod', module + '.' + name)}
        if mod.star or name in IMPLICIT:
            return {('var',)}
        # a submodule imported somewhere
        return None

    def expr(self, scope, node, depth=0):
        """Targets of an expression that is a name or a chain of attributes; empty if not resolved."""
        if isinstance(node, ast.Name):
            return self.targets(scope, node.id, depth) or set()
        if isinstance(node, ast.Attribute):
            out = set()
            for t in self.expr(scope, node.value, depth):
                if t[0] == 'mod':
                    r = self._lib(t[1], node.attr)
                    out |= r if r is not None else {('missing', t[1], node.attr)}
                elif t[0] == 'ext':
                    out.add(('ext', t[1] + '.' + node.attr))
                elif t[0] == 'cls':
                    f = t[1].find(node.attr)
                    if f is not None and f[0] == 'method':
                        out.add(('method', t[1], f[1], f[2]))
                    else:
                        out.add(('var',))
                else:
                    out.add(('var',))
            return out
        return set()


def assigns(mod):
    """Target node -> [(value, scope)]."""
    if not hasattr(mod, '_assigns'):
        d = {}
        for r in mod.refs:
            n = r.node
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d.setdefault(id(t), []).append((n.value, r.scope))
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                d.setdefault(id(a), []).append((b, r.scope))
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                d.setdefault(id(n.target), []).append((n.value, r.scope))
            elif isinstance(n, ast.NamedExpr):
                d.setdefault(id(n.target), []).append((n.value, r.scope))
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                d.setdefault(id(n.optional_vars), []).append((n.context_expr, r.scope))
        mod._assigns = d
    return mod._assigns


CACHE = {}


def modules(prog):
    if id(prog) not in CACHE:
        CACHE.clear()
        CACHE[id(prog)] = d = {}
        for name, m in prog.modules.items():
            if not name.startswith(('driver:', 'rsastub')):
                d[name] = Module(prog, m)
    return CACHE[id(prog)]


def guarded(parents, node, *names):
    """Is the node in the body of a try that handles one of the named exceptions?"""
    chain = tuple(parents) + (node,)
    for p, child in zip(chain, chain[1:]):
        if isinstance(p, ast.Try) and any(child is b for b in p.body):
            for h in p.handlers:
                if h.type is None:
                    return True
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    n = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '')
                    if n in names or n in ('Exception', 'BaseException'):
                        return True
    return False


def unreachable(prog, parents, node):
    """In the ImportError handler of a try whose imports cannot fail, or under a test of the Python version that is false."""
    chain = tuple(parents) + (node,)
    for p, child in zip(chain, chain[1:]):
        if isinstance(p, ast.Try) and isinstance(child, ast.ExceptHandler) and child.type is not None and getattr(child.type, 'id', '') in ('ImportError', 'ModuleNotFoundError'):
            if all(importable(prog, b) for b in p.body):
                return True
        if isinstance(p, (ast.If, ast.IfExp)):
            v = version_test(p.test)
            body = p.body if isinstance(p.body, list) else [p.body]
            orelse = p.orelse if isinstance(p.orelse, list) else [p.orelse]
            if v is False and any(child is b for b in body) or v is True and any(child is b for b in orelse):
                return True
    return False


def importable(prog, n):
    if isinstance(n, ast.Import):
        return all(stdlib(a.name)[0] for a in n.names)
    if isinstance(n, ast.ImportFrom):
        return not n.level and all(stdlib((n.module or '') + '.' + a.name)[0] for a in n.names)
    return isinstance(n, (ast.Pass,)) or isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant)


def version_test(t):
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b, op = t.left, t.comparators[0], t.ops[0]
        index = None
        if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Constant):
            index, a = a.slice.value, a.value
        if isinstance(a, ast.Attribute) and a.attr == 'version_info' and isinstance(a.value, ast.Name) and a.value.id == 'sys':
            try:
                w = ast.literal_eval(b)
                v = tuple(sys.version_info)[:3] if index is None else sys.version_info[index]
                return {ast.Lt: v < w, ast.LtE: v <= w, ast.Gt: v > w, ast.GtE: v >= w, ast.Eq: v == w, ast.NotEq: v != w}.get(type(op))
            except Exception:
                return None
    return None
