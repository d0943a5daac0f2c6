"""Program model: the modules, classes and functions of /repo as resolved syntax.

The code under analysis is only parsed (ast.parse), never imported.
"""
import ast
import builtins
import os

REPO = os.environ.get('RSA_REPO', '/repo')
PKG = 'resync'
SCRIPTS = ['resync-sync', 'resync-build', 'resync-explorer']


class AnchorError(Exception):
    """A construct the rules are anchored in does not exist any more."""


class FunctionInfo(object):
    def __init__(self, node, module, cls, qualname):
        self.node = node
        self.module = module
        self.cls = cls
        self.qualname = qualname
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            n = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(n.id if isinstance(n, ast.Name) else
                                   n.attr if isinstance(n, ast.Attribute) else '?')
        self.is_static = 'staticmethod' in self.decorators
        self.is_class = 'classmethod' in self.decorators
        self.is_gen = _has_yield(node)
        self.globals = set()
        self.nonlocals = set()
        for n in _own_nodes(node):
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)

    @property
    def where(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return '<fn %s>' % self.qualname


def _own_nodes(fn):
    """Nodes of a function body without those of nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _has_yield(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fn))


class ClassInfo(object):
    def __init__(self, node, module, qualname):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.name = node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.deleters = {}
        self.class_attrs = {}      # name -> value expression
        self.bases = []            # ClassInfo or dotted external name
        self._mro = None

    def finish(self, prog):
        for b in self.node.bases:
            self.bases.append(prog.resolve_class_expr(self.module, b))

    def mro(self):
        """Linearization: project ClassInfo objects and external dotted names (C3)."""
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(b.mro()))
                else:
                    seqs.append([b])
            seqs.append(list(self.bases))
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in t if x is not c and x != c] if t and (c in t) else t for t in seqs]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """('method'|'getter'|'attr', object, owner class) or None; after= skips up to a class."""
        skip = after is not None
        for c in self.mro():
            if skip:
                if c is after:
                    skip = False
                continue
            if not isinstance(c, ClassInfo):
                continue
            if name in c.getters or name in c.setters:
                return ('prop', c.getters.get(name), c)
            if name in c.methods:
                return ('method', c.methods[name], c)
            if name in c.class_attrs:
                return ('attr', c.class_attrs[name], c)
        return None

    def find_setter(self, name):
        for c in self.mro():
            if not isinstance(c, ClassInfo):
                continue
            if name in c.setters:
                return c.setters[name]
            if name in c.getters or name in c.methods or name in c.class_attrs:
                return None
        return None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassInfo)]

    def is_subclass(self, other):
        return any(c is other or c == other or (isinstance(c, ClassInfo) and c.qualname == other) for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.qualname


class ModuleInfo(object):
    def __init__(self, name, path, relpath, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.source = source
        self.tree = ast.parse(source, path)
        self.names = {}        # name -> ('fn',FunctionInfo)|('cls',ClassInfo)|('mod',name)|('ext',dotted)|('var',[exprs])|('from',mod,name)
        self.is_pkg = path.endswith('__init__.py')


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.functions = {}
        self.load()

    # -- loading

    def load(self):
        pdir = os.path.join(self.repo, PKG)
        if not os.path.isdir(pdir):
            raise AnchorError('no package directory %s' % pdir)
        for dirpath, dirs, files in os.walk(pdir):
            dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(dirpath, f)
                    rel = os.path.relpath(path, self.repo)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self._add(name, path, rel)
        for s in SCRIPTS:
            path = os.path.join(self.repo, s)
            if os.path.exists(path):
                self._add('script:' + s, path, s)
        for m in list(self.modules.values()):
            self._collect(m)
        for c in list(self.classes.values()):
            c.finish(self)

    def _add(self, name, path, rel):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        self.modules[name] = ModuleInfo(name, path, rel, src)

    def _collect(self, m):
        self._collect_body(m, m.tree.body)

    def _collect_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(n, m, None, m.name + '.' + n.name)
                self.functions[fi.qualname] = fi
                m.names[n.name] = ('fn', fi)
            elif isinstance(n, ast.ClassDef):
                self._collect_class(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self._bind_import(m, a)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.names[a.asname or a.name] = self._from(m, n, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for name, expr in _targets(t, n.value):
                        m.names.setdefault(name, ('var', []))
                        if m.names[name][0] != 'var':
                            m.names[name] = ('var', [])
                        m.names[name][1].append(expr)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                m.names[n.target.id] = ('var', [n.value])
            elif isinstance(n, ast.Try):
                # alternatives by python version: names of the body win
                for h in n.handlers:
                    self._collect_body(m, h.body)
                self._collect_body(m, n.body)
                self._collect_body(m, n.orelse)
                self._collect_body(m, n.finalbody)
            elif isinstance(n, (ast.If,)):
                self._collect_body(m, n.orelse)
                self._collect_body(m, n.body)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                self._collect_body(m, n.body)

    def _bind_import(self, m, a):
        if a.asname:
            m.names[a.asname] = self.mod_or_ext(a.name)
        else:
            top = a.name.split('.')[0]
            m.names[top] = self.mod_or_ext(top)

    def mod_or_ext(self, dotted):
        if dotted in self.modules:
            return ('mod', dotted)
        return ('ext', dotted)

    def _from(self, m, node, name):
        base = node.module or ''
        if node.level:
            pkg = m.name.split('.')
            if not m.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (node.level - 1)]
            base = '.'.join(pkg + ([node.module] if node.module else []))
        full = base + '.' + name if base else name
        if full in self.modules:
            return ('mod', full)
        if base in self.modules:
            return ('from', base, name)
        return ('ext', full)

    def _collect_class(self, m, n):
        ci = ClassInfo(n, m, m.name + '.' + n.name)
        self.classes[ci.qualname] = ci
        m.names[n.name] = ('cls', ci)
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(b, m, ci, ci.qualname + '.' + b.name)
                kind = 'method'
                for d in b.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('property', 'cached_property'):
                        kind = 'getter'
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter', 'cached_property'):
                        kind = {'cached_property': 'getter'}.get(d.attr, d.attr)
                if kind == 'getter':
                    ci.getters[b.name] = fi
                elif kind == 'setter':
                    fi.qualname += '(set)'
                    ci.setters[b.name] = fi
                elif kind == 'deleter':
                    ci.deleters[b.name] = fi
                else:
                    ci.methods[b.name] = fi
                self.functions[fi.qualname] = fi
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    for name, expr in _targets(t, b.value):
                        v = expr
                        # x = property(getter, setter)
                        if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                and v.func.id == 'property'):
                            args = list(v.args)
                            kws = {k.arg: k.value for k in v.keywords}
                            g = args[0] if args else kws.get('fget')
                            s = args[1] if len(args) > 1 else kws.get('fset')
                            if isinstance(g, ast.Name) and g.id in ci.methods:
                                ci.getters[name] = ci.methods[g.id]
                            if isinstance(s, ast.Name) and s.id in ci.methods:
                                ci.setters[name] = ci.methods[s.id]
                            continue
                        if isinstance(v, ast.Name) and v.id in ci.methods:
                            ci.methods[name] = ci.methods[v.id]
                            continue
                        ci.class_attrs[name] = v
            elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
                ci.class_attrs[b.target.id] = b.value

    # -- resolution

    def lookup(self, module, name, depth=0):
        """Resolve a global name of a module; None if undefined."""
        r = module.names.get(name)
        if r is None:
            if hasattr(builtins, name):
                return ('builtin', name)
            return None
        if r[0] == 'from' and depth < 10:
            m = self.modules[r[1]]
            rr = self.lookup(m, r[2], depth + 1)
            if rr is None or rr[0] == 'builtin' and r[2] not in m.names:
                return ('missing', r[1], r[2])
            if rr[0] == 'var':
                return ('gvar', m, r[2], rr[1])
            return rr
        if r[0] == 'var':
            return ('gvar', module, name, r[1])
        return r

    def resolve_class_expr(self, module, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup(module, expr.id)
            if r is not None:
                if r[0] == 'cls':
                    return r[1]
                if r[0] == 'ext':
                    return r[1]
                if r[0] == 'builtin':
                    return 'builtins.' + r[1]
            return '?' + expr.id
        if isinstance(expr, ast.Attribute):
            d = dotted(expr)
            if d:
                top = d.split('.')[0]
                r = self.lookup(module, top)
                if r and r[0] == 'mod':
                    m = self.modules[r[1]]
                    parts = d.split('.')[1:]
                    while parts and (m.name + '.' + parts[0]) in self.modules:
                        m = self.modules[m.name + '.' + parts[0]]
                        parts = parts[1:]
                    if len(parts) == 1:
                        rr = self.lookup(m, parts[0])
                        if rr and rr[0] == 'cls':
                            return rr[1]
                if r and r[0] == 'ext':
                    return r[1] + d[len(top):]
            return '?' + (d or ast.dump(expr))
        return '?expr'

    # -- anchors

    def cls(self, qualname):
        c = self.classes.get(qualname)
        if c is None:
            # class moved to another module: still found by its name if unique
            name = qualname.rsplit('.', 1)[1]
            cands = [x for x in self.classes.values() if x.name == name]
            if len(cands) == 1:
                return cands[0]
            raise AnchorError('class %s not found' % qualname)
        return c

    def method(self, clsname, name):
        c = self.cls(clsname)
        r = c.find(name)
        if r is None or r[0] == 'attr' or r[1] is None:
            raise AnchorError('method %s.%s not found' % (clsname, name))
        return r[1]

    def fn(self, qualname):
        f = self.functions.get(qualname)
        if f is None:
            mod, name = qualname.rsplit('.', 1)
            m = self.modules.get(mod)
            if m is not None:
                r = self.lookup(m, name)
                if r and r[0] == 'fn':
                    return r[1]
            raise AnchorError('function %s not found' % qualname)
        return f


def _targets(t, value):
    if isinstance(t, ast.Name):
        yield t.id, value
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
            for a, b in zip(t.elts, value.elts):
                for x in _targets(a, b):
                    yield x
        else:
            for a in t.elts:
                for x in _targets(a, None):
                    yield x


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None
