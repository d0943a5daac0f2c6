"""Rules over all names, attributes and calls of the library and its scripts: parsers of XML (C26), requests (C32), names and signatures (C42)."""
import ast
import builtins
import inspect

from ..model import ClassInfo
from ..names import modules, assigns, guarded, stdlib, unreachable, FUNCS

# ---------------------------------------------------------------------- C26

PLAIN = ('xml.etree.ElementTree.', 'xml.etree.cElementTree.', 'xml.dom.', 'xml.sax', 'xml.parsers.', 'lxml.', 'xmlrpc.', 'bs4.', 'xmltodict.', 'pyexpat.', 'html5lib.', 'genshi.',
         'untangle.', 'pulldom.')
READERS = {'parse', 'fromstring', 'fromstringlist', 'XML', 'XMLID', 'iterparse', 'XMLParser', 'XMLPullParser', 'XMLTreeBuilder', 'parseString', 'ParserCreate', 'make_parser', 'expatreader',
           'BeautifulSoup', 'ServerProxy', 'loads', 'HTML', 'HTMLParser', 'create_parser', 'DOMBuilder', 'expatbuilder', 'objectify', 'parseid', 'ETCompatXMLParser'}
FLAGS = {'forbid_entities': True, 'forbid_external': True}


def text(targets):
    return ', '.join(sorted(t[1] for t in targets if t[0] == 'ext'))


def unhardened(d):
    return d.startswith(PLAIN) and d.split('.')[-1] in READERS


def outer(r):
    """The whole attribute chain is looked at once."""
    p = r.parents[-1] if r.parents else None
    return not (isinstance(p, ast.Attribute) and p.value is r.node)


def constant(mod, scope, node, depth=0):
    """(True, value) of an expression that is a constant or a name always bound to one."""
    if isinstance(node, ast.Constant):
        return True, node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        k, v = constant(mod, scope, node.operand, depth)
        return k, (not v if k else None)
    if isinstance(node, ast.Name) and depth < 4:
        s = scope.find(node.id)
        if s is not None and len(s.binds[node.id]) == 1:
            b = s.binds[node.id][0][0]
            for r in mod.refs:
                if isinstance(r.node, ast.Assign) and any(t is b for t in r.node.targets):
                    return constant(mod, r.scope, r.node.value, depth + 1)
    return False, None


def is_tree(mod, scope, node, depth=0):
    """May the expression be an ElementTree made by the plain library (whose parse method is the plain parser)?"""
    if isinstance(node, ast.Call):
        return any(t[0] == 'ext' and t[1].startswith(PLAIN) and t[1].endswith('.ElementTree') for t in mod.expr(scope, node.func))
    if isinstance(node, ast.Name) and depth < 4:
        s = scope.find(node.id)
        if s is not None:
            return any(is_tree(mod, sc, v, depth + 1) for b, _ in s.binds[node.id] for v, sc in assigns(mod).get(id(b), ()))
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self' and depth < 4:
        for r in mod.refs:
            if isinstance(r.node, ast.Assign):
                for t in r.node.targets:
                    if isinstance(t, ast.Attribute) and t.attr == node.attr and isinstance(t.value, ast.Name) and t.value.id == 'self' and is_tree(mod, r.scope, r.node.value, depth + 1):
                        return True
    return False


def rule_C26(prog, rep, tier):
    R = rep.rule('parser', """No function, class or method of an XML library other than the hardened one that parses is referred to anywhere: under any name it
        was imported or assigned by, in any branch of an import.""")
    R2 = rep.rule('flags', 'No use of the hardened parser turns off the refusal of entities or external references or passes another parser.')
    R3 = rep.rule('readers', 'Some hardened parser is used by the function that reads sitemaps.')
    used = set()
    for mod in modules(prog).values():
        n = 0
        for r in mod.refs:
            node = r.node
            if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load) and outer(r):
                ts = mod.expr(r.scope, node)
                for t in ts:
                    if t[0] != 'ext':
                        continue
                    n += 1
                    if unhardened(t[1]):
                        rep.fail(R, r.scope.qualname, t[1], '%s:%d: %s is a parser that is not hardened' % (mod.m.relpath, node.lineno, t[1]), '%s:%d' % (mod.m.relpath, node.lineno))
                    if t[1].startswith('defusedxml.') and t[1].split('.')[-1] in READERS:
                        used.add((r.scope.qualname, t[1]))
            if isinstance(node, ast.Attribute) and node.attr in ('parse',) and is_tree(mod, r.scope, node.value):
                rep.fail(R, r.scope.qualname, 'ElementTree.parse', '%s:%d: the parse method of a plain ElementTree is not hardened' % (mod.m.relpath, node.lineno),
                         '%s:%d' % (mod.m.relpath, node.lineno))
            if isinstance(node, ast.Constant) and isinstance(node.value, str) and isinstance(r.parents[-1], ast.Call):
                # getattr(module, 'parse'), __import__('xml...')
                c = r.parents[-1]
                if isinstance(c.func, ast.Name) and c.func.id == 'getattr' and len(c.args) > 1 and c.args[1] is node:
                    for t in mod.expr(r.scope, c.args[0]):
                        if t[0] == 'ext' and unhardened(t[1] + '.' + node.value):
                            rep.fail(R, r.scope.qualname, t[1] + '.' + node.value, '%s:%d: %s.%s is a parser that is not hardened' % (mod.m.relpath, node.lineno, t[1], node.value))
                elif (isinstance(c.func, ast.Name) and c.func.id == '__import__' or isinstance(c.func, ast.Attribute) and c.func.attr == 'import_module') and (node.value + '.').startswith(PLAIN):
                    rep.fail(R, r.scope.qualname, node.value, '%s:%d: %s is imported under no name' % (mod.m.relpath, node.lineno, node.value))
            if isinstance(node, ast.Call):
                ts = [t[1] for t in mod.expr(r.scope, node.func) if t[0] == 'ext']
                for d in ts:
                    if d.startswith(PLAIN) and d.endswith('.ElementTree') and (len(node.args) > 1 or any(k.arg == 'file' for k in node.keywords)):
                        rep.fail(R, r.scope.qualname, d + '(file)', '%s:%d: %s parses its file with a parser that is not hardened' % (mod.m.relpath, node.lineno, d))
                    if d.startswith('defusedxml.') and d.split('.')[-1] in READERS | {'DefusedXMLParser', 'parseString'}:
                        n += 1
                        ok = True
                        names = {'forbid_entities': 3, 'forbid_external': 4, 'parser': 1}
                        given = {k.arg: k.value for k in node.keywords}
                        if not d.endswith('DefusedXMLParser'):
                            for k, i in names.items():
                                if len(node.args) > i and not any(isinstance(a, ast.Starred) for a in node.args[:i + 1]):
                                    given[k] = node.args[i]
                        for k in FLAGS:
                            if k in given:
                                known, v = constant(mod, r.scope, given[k])
                                if not known or not v:
                                    ok = False
                                    rep.fail(R2, r.scope.qualname, '%s of %s' % (k, d), '%s:%d: %s is called with %s %s' % (mod.m.relpath, node.lineno, d, k, v if known else 'not always true'))
                        if None in given:
                            v = given[None]
                            if not (isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) and k.value not in names for k in v.keys)):
                                rep.undecided(R2, '%s in %s' % (d, r.scope.qualname), 'keywords not known')
                        if 'parser' in given:
                            v = given['parser']
                            known, c = constant(mod, r.scope, v)
                            vals = [v]
                            if isinstance(v, ast.Name):
                                s = r.scope.find(v.id)
                                vals = [x for b, _ in s.binds[v.id] for x, _ in assigns(mod).get(id(b), [(None, None)])] if s is not None else [None]
                            for x in vals:
                                if isinstance(x, ast.Constant) and x.value is None:
                                    continue
                                if isinstance(x, ast.Call) and any(t[0] == 'ext' and t[1].startswith('defusedxml.') for t in mod.expr(r.scope, x.func)):
                                    continue
                                ok = False
                                rep.fail(R2, r.scope.qualname, 'parser of %s' % d, '%s:%d: %s is called with a parser of its own' % (mod.m.relpath, node.lineno, d))
                        if ok:
                            rep.hold(R2, '%s in %s' % (d, r.scope.qualname))
        rep.hold(R, '%s: %d references to other libraries' % (mod.m.name, n))
        rep.fn |= {s.qualname for s in mod.scopes.values() if s.kind == 'function'}
        rep.calls |= {'%s:%d' % (mod.m.relpath, r.node.lineno) for r in mod.refs if isinstance(r.node, ast.Call)}
    sm = {q for q, d in used if q.startswith('resync.')}
    if sm:
        for q in sorted(sm):
            rep.hold(R3, q)
    else:
        rep.fail(R3, 'resync', 'no reader', 'no function of the library refers to a parser of defusedxml', '')


# ---------------------------------------------------------------------- C32, one gateway

WEB = ('urllib.request.urlopen', 'urllib.request.urlretrieve', 'urllib.request.URLopener', 'urllib.request.FancyURLopener', 'urllib.request.build_opener',
       'urllib.request.OpenerDirector', 'urllib.urlopen', 'urllib.urlretrieve', 'urllib2.urlopen', 'urllib2.build_opener',
       'http.client.HTTPConnection', 'http.client.HTTPSConnection', 'httplib.HTTPConnection', 'httplib.HTTPSConnection', 'socket.socket', 'socket.create_connection',
       'asyncio.open_connection', 'webbrowser.open')
WEBLIBS = ('requests.', 'urllib3.', 'httplib2.', 'aiohttp.', 'httpx.', 'pycurl.', 'ftplib.', 'tornado.httpclient.', 'wget.')
HARMLESS = ('exceptions', 'Error', 'Exception', 'Timeout', 'codes', 'status_codes', 'all_errors', 'utils', 'quote', '__version__')
COMMANDS = ('curl', 'wget', 'lynx', 'ftp', 'scp', 'rsync')


def opens(d):
    if d in WEB or any(d.startswith(w + '.') for w in WEB):
        return True
    return d.startswith(WEBLIBS) and not d.endswith(HARMLESS) and not any('.%s.' % h in d for h in HARMLESS)


def gateway(prog, rep):
    R = rep.rule('gateway', """Nothing in the library or its scripts refers to a function or class that makes web requests, except the open function of the library
        and functions that only it uses.""")
    gate = prog.fn('resync.url_or_file_open.url_or_file_open')
    inside = set()
    # helpers of the gateway: functions of its module all of whose uses are in the gateway or in such helpers
    uses = {}
    for mod in modules(prog).values():
        for r in mod.refs:
            if isinstance(r.node, (ast.Name, ast.Attribute)) and isinstance(r.node.ctx, ast.Load):
                for t in mod.expr(r.scope, r.node):
                    if t[0] == 'fn':
                        uses.setdefault(t[1].qualname, set()).add(r.scope.qualname)
    inside = {gate.qualname}
    changed = True
    while changed:
        changed = False
        for f, us in uses.items():
            if f not in inside and us and all(u in inside or any(u.startswith(i + '.') for i in inside) for u in us) and prog.functions[f].module is gate.module:
                inside.add(f)
                changed = True
    for mod in modules(prog).values():
        n = 0
        for r in mod.refs:
            node = r.node
            if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load) and outer(r):
                for t in mod.expr(r.scope, node):
                    if t[0] != 'ext':
                        continue
                    n += 1
                    if opens(t[1]):
                        q = r.scope.qualname
                        if q in inside or any(q.startswith(i + '.') for i in inside):
                            rep.hold(R, '%s in %s' % (t[1], q))
                        else:
                            rep.fail(R, q, t[1], '%s:%d: %s makes requests that do not go through %s' % (mod.m.relpath, node.lineno, t[1], gate.qualname), '%s:%d' % (mod.m.relpath, node.lineno))
                    if t[1].startswith(('subprocess.', 'os.system', 'os.popen', 'os.exec', 'os.spawn')) and isinstance(r.parents[-1], ast.Call) and r.parents[-1].func is node:
                        for x in ast.walk(r.parents[-1]):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str) and any(c in x.value.split()[:1] for c in COMMANDS):
                                rep.fail(R, r.scope.qualname, t[1], '%s:%d: %s makes requests by another program' % (mod.m.relpath, node.lineno, x.value))
        rep.hold(R, '%s: %d references to other libraries' % (mod.m.name, n))


# ---------------------------------------------------------------------- C42

UNIVERSE_MODULES = ('argparse', 'logging', 'datetime', 'collections', 'xml.etree.ElementTree', 'io', 'zipfile', 'http.client', 'urllib.request', 'urllib.parse', 'urllib.response', 'urllib.error',
                    'configparser', 'hashlib', 'os', 'os.path', 're', 'socket', 'time', 'email.message', 'math', 'itertools', 'shutil', 'cmd', 'pprint', 'json', 'sys', 'threading', 'subprocess', 'tempfile',
                    'pathlib', 'string', 'functools', 'contextlib', 'decimal', 'calendar', 'random', 'copy', 'types', 'codecs', 'html', 'textwrap', 'traceback', 'warnings', 'stat', 'glob', 'fnmatch',
                    'gzip', 'tarfile', 'operator', 'inspect', 'select', 'queue', 'xml.dom.minidom', 'ssl', 'optparse')


def universe(prog, library=True):
    """Every attribute name that anything might have."""
    names = set()
    for v in list(vars(builtins).values()):
        if isinstance(v, type):
            names |= set(dir(v))
    for x in ((lambda: 0), (i for i in ()), inspect.currentframe(), ''.join, len, re_match()):
        names |= set(dir(x)) | set(dir(type(x)))
    for m in UNIVERSE_MODULES:
        k, obj = stdlib(m)
        if k:
            for a, v in list(vars(obj).items()):
                names.add(a)
                if isinstance(v, type):
                    names |= set(dir(v))
            try:
                for x in ast.walk(ast.parse(inspect.getsource(obj))):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        names.add(x.attr)
            except (OSError, TypeError, SyntaxError):
                pass
    names |= {'st_mtime', 'st_size', 'st_ino', 'st_dev', 'st_mode', 'tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst', 'reason', 'filename'}
    for mod in modules(prog).values() if library else ():
        for r in mod.refs:
            n = r.node
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(n.name)
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    names.add(n.args[1].value)
                elif isinstance(f, ast.Name) and f.id in ('namedtuple', 'type'):
                    for a in n.args:
                        for x in ast.walk(a):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                names |= set(x.value.replace(',', ' ').split())
                elif isinstance(f, ast.Attribute) and f.attr == 'namedtuple':
                    for a in n.args:
                        for x in ast.walk(a):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                names |= set(x.value.replace(',', ' ').split())
                elif isinstance(f, ast.Attribute) and f.attr in ('add_argument', 'set_defaults', 'add_option'):
                    names |= dests(n)
        for s in mod.scopes.values():
            if s.kind == 'class':
                names |= set(s.binds)
                for b in s.node.body:
                    if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in b.targets):
                        for x in ast.walk(b.value):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                names.add(x.value)
        # names given as text and set dynamically
    return names


def re_match():
    import re
    return re.match('a', 'a')


def dests(call):
    """The attribute an option is stored in."""
    for k in call.keywords:
        if k.arg == 'dest' and isinstance(k.value, ast.Constant):
            return {k.value.value}
    if isinstance(call.func, ast.Attribute) and call.func.attr == 'set_defaults':
        return {k.arg for k in call.keywords if k.arg}
    opts = [a.value for a in call.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    long = [o for o in opts if o.startswith('--')]
    pick = long[0] if long else (opts[0] if opts else '')
    return {pick.lstrip('-').replace('-', '_')} if pick else set()


class Classes(object):
    """Attributes instances of the library's classes may have."""

    def __init__(self, prog):
        self.prog = prog
        self.mods = modules(prog)
        self.own = {}              # ClassInfo -> set of attribute names stored through self
        self.dynamic = set()       # classes whose attributes are set under computed names
        self.outside = set()       # attributes stored through something else than self
        for mod in self.mods.values():
            for r in mod.refs:
                n, sc = r.node, r.scope
                c = sc.owner
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if c is not None and isinstance(n.value, ast.Name) and n.value.id == self_name(sc):
                        self.own.setdefault(c, set()).add(n.attr)
                    else:
                        self.outside.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
                    mine = c is not None and isinstance(n.args[0], ast.Name) and n.args[0].id == self_name(sc)
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        (self.own.setdefault(c, set()) if mine else self.outside).add(n.args[1].value)
                    elif mine:
                        self.dynamic.add(c)
                if isinstance(n, ast.Attribute) and n.attr == '__dict__' and c is not None:
                    self.dynamic.add(c)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('vars', 'locals') and c is not None:
                    self.dynamic.add(c)
        for c in prog.classes.values():
            if '__getattr__' in c.methods or '__getattribute__' in c.methods:
                self.dynamic.add(c)
            s = c.class_attrs.get('__slots__')
            if s is not None:
                self.own.setdefault(c, set()).update(x.value for x in ast.walk(s) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        self.memo = {}

    def family(self, c, down):
        out = [x for x in c.mro() if isinstance(x, ClassInfo)]
        if down:
            for d in self.prog.classes.values():
                if d is not c and d.is_subclass(c):
                    out += [x for x in d.mro() if isinstance(x, ClassInfo)]
        return out

    def attributes(self, c, down):
        """All attribute names instances of c (and its subclasses) may have; None if not known."""
        k = (c, down)
        if k not in self.memo:
            self.memo[k] = self._attributes(c, down)
        return self.memo[k]

    def _attributes(self, c, down):
        names = set(dir(object)) | {'__dict__', '__class__', '__module__', '__name__', '__qualname__', '__doc__', '__weakref__'} | self.outside
        for x in self.family(c, down):
            if x in self.dynamic:
                return None
            names |= set(x.methods) | set(x.getters) | set(x.setters) | set(x.class_attrs) | self.own.get(x, set())
            for d in self.mods[x.module.name].scopes.values():
                if d.kind == 'class' and d.node is x.node:
                    names |= set(d.binds)
            for b in x.ext_bases():
                e = ext_class(b)
                if e is None:
                    return None
                names |= set(dir(e))
                if issubclass(e, BaseException):
                    names |= {'args', 'with_traceback', '__cause__', '__context__', '__traceback__', 'errno', 'strerror', 'filename', 'message'}
        return names


def stores(mods):
    """(class, attribute) -> what is stored in it through self."""
    first = next(iter(mods.values()))
    if not hasattr(first, '_stores'):
        d = {}
        for mod in mods.values():
            for r in mod.refs:
                n = r.node
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and r.scope.owner is not None and isinstance(n.value, ast.Name) and n.value.id == self_name(r.scope):
                    p = r.parents[-1]
                    v = p.value if isinstance(p, ast.Assign) and any(t is n for t in p.targets) else None
                    d.setdefault((r.scope.owner, n.attr), []).append((mod, r.scope, v))
        first._stores = d
    return first._stores


def self_name(scope):
    """The name of the instance in a method (also seen from functions within it)."""
    s = scope
    while s is not None and s.kind in ('comp', 'function'):
        if s.kind == 'function' and s.parent is not None and s.parent.kind == 'class':
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in getattr(s.node, 'decorator_list', [])):
                return None
            a = s.node.args
            return (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else None
        s = s.parent
    return None


def ext_class(dotted):
    if dotted.startswith('?'):
        return None
    if dotted == 'builtins.object' or dotted == 'object':
        return object
    k, obj = stdlib(dotted)
    return obj if k and isinstance(obj, type) else None


def mismatch(fi, call, skip):
    """Why the call does not fit the function's parameters, or None. skip: leading parameters bound already."""
    a = fi.node.args
    pos = a.posonlyargs + a.args
    n = len(a.posonlyargs)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if a.vararg is None and len(given) + skip > len(pos):
        return '%d positional arguments given, %d taken' % (len(given), max(len(pos) - skip, 0))
    names = {p.arg: i for i, p in enumerate(pos) if i >= n}
    kwonly = {p.arg for p in a.kwonlyargs}
    have = set(range(min(skip + len(given), len(pos))))
    seen = set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in names:
            i = names[k.arg]
            if i in have and not (star and i >= skip + len(given)):
                return 'the argument %s is given twice' % k.arg
            have.add(i)
        elif k.arg in kwonly:
            seen.add(k.arg)
        elif a.kwarg is None:
            return 'there is no parameter %s' % k.arg
    if not star and not dstar:
        need = len(pos) - len(a.defaults)
        for i in range(need):
            if i not in have:
                return 'the argument %s is missing' % pos[i].arg
    if not dstar:
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and p.arg not in seen:
                return 'the argument %s is missing' % p.arg
    return None


def plain_decorators(fi):
    for d in fi.node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
        if n not in ('staticmethod', 'classmethod', 'property', 'setter', 'abstractmethod'):
            return False
    return True


def kind(fi):
    for d in fi.node.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
            return d.id
    return 'method'


def rule_C42(prog, rep, tier):
    R = rep.rule('names', 'Every name used is bound in a scope it is visible from, and bound by something other than an exception handler that has ended.')
    R2 = rep.rule('imports', "Every name imported from, or taken from, a module of the library or the standard library exists there.")
    R3 = rep.rule('attributes', "Every attribute of an instance of a known class of the library exists in the class, its bases, its subclasses, or is assigned somewhere.")
    R4 = rep.rule('universe', 'Every other attribute used has a name that something known has.')
    R5 = rep.rule('calls', 'Every call of a function, constructor or method of the library that can be resolved, in every overriding, fits its parameters.')
    mods = modules(prog)
    K = Classes(prog)
    U = universe(prog)
    U0 = universe(prog, False) | K.outside | {a for x in K.own.values() for a in x}
    M = {}
    for c in prog.classes.values():
        for a, fi in c.methods.items():
            M.setdefault(a, []).append(fi)

    def where(mod, n):
        return '%s:%d' % (mod.m.relpath, n.lineno)

    def types(mod, scope, node, depth=0):
        """Classes of the library an expression is an instance of; None if not known. (classes, exact)"""
        if isinstance(node, ast.Name):
            if node.id == self_name(scope) and scope.find(node.id) is not None and scope.owner is not None and bound_once(scope, node.id):
                return [scope.owner], False
            s = scope.find(node.id)
            if s is None or depth > 3:
                return None
            out = []
            for b, what in s.binds[node.id]:
                vs = assigns(mod).get(id(b))
                if not vs:
                    return None
                for v, sc in vs:
                    t = types(mod, sc, v, depth + 1)
                    if t is None:
                        return None
                    out += t[0]
            return (out, True) if out else None
        if isinstance(node, ast.Call):
            ts = mod.expr(scope, node.func)
            if ts and all(t[0] == 'cls' for t in ts):
                return [t[1] for t in ts], True
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and depth < 3:
            t = types(mod, scope, node.value, depth + 1)
            if t is None:
                return None
            out = []
            for c in t[0]:
                x = attribute_types(c, node.attr, not t[1])
                if x is None:
                    return None
                out += x
            return (out, True) if out else None
        return None

    def attribute_types(c, attr, down):
        if attr in K.outside:
            return None
        out = []
        for x in K.family(c, down):
            if x in K.dynamic or attr in x.methods or attr in x.getters or attr in x.setters:
                return None
            if attr in x.class_attrs and not (isinstance(x.class_attrs[attr], ast.Constant) and x.class_attrs[attr].value is None):
                return None
            for m, sc, v in stores(mods).get((x, attr), ()):
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                ts = m.expr(sc, v.func) if isinstance(v, ast.Call) else set()
                if not ts or not all(t[0] == 'cls' for t in ts):
                    return None
                out += [t[1] for t in ts]
        return out

    def bound_once(scope, name):
        s = scope.find(name)
        return len(s.binds[name]) == 1 and s.binds[name][0][1] == ('param',)

    def dispatch(mod, scope, call):
        """[(FunctionInfo, number of bound parameters)] a call may reach; None if not known."""
        f = call.func
        out = []
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and scope.owner is not None:
            c = scope.owner
            if f.value.args:
                ts = mod.expr(scope, f.value.args[0])
                cs = [t[1] for t in ts if t[0] == 'cls']
                if not cs:
                    return None
                c = cs[0]
            m = c.find(f.attr, after=c)
            if m is None:
                if all(b in ('builtins.object', 'object') for b in c.ext_bases()) and not hasattr(object, f.attr):
                    rep.fail(R3, scope.qualname, 'super().' + f.attr, '%s: no base of %s has %s' % (where(mod, call), c.name, f.attr), where(mod, call))
                return None
            return [(m[1], 1 if kind(m[1]) != 'staticmethod' else 0)] if m[0] == 'method' else None
        if isinstance(f, ast.Attribute):
            t = types(mod, scope, f.value)
            if t is not None:
                for c in t[0]:
                    cs = [c] if t[1] else [c] + [d for d in prog.classes.values() if d is not c and d.is_subclass(c)]
                    for d in cs:
                        m = d.find(f.attr)
                        if m is None or m[0] != 'method' or any(f.attr in K.own.get(x, ()) for x in K.family(d, False)):
                            continue
                        out.append((m[1], 1 if kind(m[1]) != 'staticmethod' else 0))
                return out or None
        ts = mod.expr(scope, f)
        for t in ts:
            if t[0] == 'fn':
                out.append((t[1], 0))
            elif t[0] == 'cls':
                m = t[1].find('__init__')
                if '__new__' in t[1].methods or any(isinstance(k, ast.keyword) and k.arg == 'metaclass' for k in t[1].node.keywords) or t[1].node.decorator_list:
                    return None
                if m is None:
                    if all(b in ('builtins.object', 'object') for b in t[1].ext_bases()) and (call.args or call.keywords):
                        rep.fail(R5, scope.qualname, t[1].name, '%s: %s takes no arguments' % (where(mod, call), t[1].name), where(mod, call))
                    return None
                first = next(b for b in t[1].mro() if not isinstance(b, ClassInfo) or '__init__' in b.methods)
                if not isinstance(first, ClassInfo) and first not in ('builtins.object', 'object'):
                    return None
                out.append((m[1], 1))
            elif t[0] == 'method':
                k = kind(t[2])
                out.append((t[2], 1 if k == 'classmethod' else 0))
            else:
                return None
        return out or None

    for name, mod in mods.items():
        stars = mod.star
        known = unknown = calls = 0
        for r in mod.refs:
            n, sc = r.node, r.scope
            if not isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Import, ast.ImportFrom)) or unreachable(prog, r.parents, n):
                continue
            # names
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                known += 1
                ts = mod.targets(sc, n.id)
                if ts is None:
                    if not guarded(r.parents, n, 'NameError'):
                        rep.fail(R, sc.qualname, n.id, '%s: the name %s is not defined' % (where(mod, n), n.id), where(mod, n))
                    continue
                for t in ts:
                    if t[0] == 'missing' and len(ts) == 1:
                        rep.fail(R2, sc.qualname, '%s from %s' % (t[2], t[1]), '%s: %s does not define %s' % (where(mod, n), t[1], t[2]), where(mod, n))
                s = sc.find(n.id)
                if s is not None and s is sc and s.kind == 'function':
                    bs = s.binds[n.id]
                    if all(w and w[0] == 'except' for _, w in bs) and not any(p is b for b, _ in bs for p in r.parents):
                        rep.fail(R, sc.qualname, n.id, '%s: %s is only bound within exception handlers' % (where(mod, n), n.id), where(mod, n))
                    elif too_early(n, bs, r.parents):
                        rep.fail(R, sc.qualname, n.id, '%s: %s is not bound before it is used' % (where(mod, n), n.id), where(mod, n))
            # imports
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        continue
                    t = prog._from(mod.m, n, a.name)
                    ok = True
                    if t[0] == 'from':
                        ok = mods[t[1]].top.binds.get(t[2]) is not None or mods[t[1]].star or t[2] in ('__version__',) and False or t[2] in IMPL
                    elif t[0] == 'ext':
                        base = t[1].split('.')[0]
                        if n.level or base == 'resync':
                            ok = False
                        else:
                            k, _ = stdlib(t[1])
                            ok = k is not False
                    if not ok and not guarded(r.parents, n, 'ImportError', 'ModuleNotFoundError'):
                        rep.fail(R2, sc.qualname, t[1] if t[0] == 'ext' else '%s from %s' % (t[2], t[1]), '%s: there is no %s' % (where(mod, n), a.name), where(mod, n))
                    known += 1
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == 'resync' and a.name not in prog.modules and not guarded(r.parents, n, 'ImportError', 'ModuleNotFoundError'):
                        rep.fail(R2, sc.qualname, a.name, '%s: there is no module %s' % (where(mod, n), a.name), where(mod, n))
            # attributes
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Del)):
                ts = mod.expr(sc, n)
                bad = [t for t in ts if t[0] == 'missing']
                if bad and len(ts) == len(bad):
                    if not guarded(r.parents, n, 'AttributeError'):
                        rep.fail(R2, sc.qualname, '%s of %s' % (n.attr, bad[0][1]), '%s: %s has no %s' % (where(mod, n), bad[0][1], n.attr), where(mod, n))
                    continue
                exts = [t[1] for t in ts if t[0] == 'ext']
                if exts and len(exts) == len(ts):
                    known += 1
                    ks = [stdlib(d)[0] for d in exts]
                    if all(k is False for k in ks) and not guarded(r.parents, n, 'AttributeError', 'ImportError'):
                        rep.fail(R2, sc.qualname, exts[0], '%s: there is no %s' % (where(mod, n), exts[0]), where(mod, n))
                    continue
                base = mod.expr(sc, n.value)
                if base and all(t[0] == 'cls' for t in base):
                    for t in base:
                        names = class_names(t[1])
                        known += 1
                        if names is not None and n.attr not in names and not guarded(r.parents, n, 'AttributeError'):
                            rep.fail(R3, sc.qualname, '%s.%s' % (t[1].name, n.attr), '%s: %s has no %s' % (where(mod, n), t[1].name, n.attr), where(mod, n))
                    continue
                t = types(mod, sc, n.value)
                if t is not None:
                    for c in t[0]:
                        names = K.attributes(c, not t[1])
                        known += 1
                        if names is not None and n.attr not in names and not guarded(r.parents, n, 'AttributeError') and not has_check(r, n):
                            rep.fail(R3, sc.qualname, '%s.%s' % (c.name, n.attr), '%s: %s has no %s' % (where(mod, n), c.name, n.attr), where(mod, n))
                    continue
                unknown += 1
                if n.attr not in U and not foreign(mod, sc, n.value) and not guarded(r.parents, n, 'AttributeError') and not has_check(r, n):
                    rep.fail(R4, sc.qualname, n.attr, '%s: nothing known has an attribute %s' % (where(mod, n), n.attr), where(mod, n))
            # calls
            elif isinstance(n, ast.Call):
                fs = dispatch(mod, sc, n)
                if fs is None:
                    # a method of something unknown: some method of that name must fit
                    f = n.func
                    if isinstance(f, ast.Attribute) and f.attr in M and f.attr not in U0 and not mod.expr(sc, f) - {('var',)} and not guarded(r.parents, n, 'TypeError', 'AttributeError'):
                        calls += 1
                        whys = [mismatch(fi, n, 1 if kind(fi) != 'staticmethod' else 0) for fi in M[f.attr] if plain_decorators(fi)]
                        if whys and all(whys):
                            rep.fail(R5, sc.qualname, f.attr, '%s: call of %s: %s' % (where(mod, n), f.attr, '; '.join(sorted(set(whys)))), where(mod, n))
                    continue
                for fi, skip in fs:
                    if not plain_decorators(fi):
                        continue
                    calls += 1
                    why = mismatch(fi, n, skip)
                    # overridings that do not fit are errors; alternatives by type all have to fit
                    if why is not None and not guarded(r.parents, n, 'TypeError'):
                        rep.fail(R5, sc.qualname, fi.qualname, '%s: call of %s: %s' % (where(mod, n), fi.qualname, why), where(mod, n))
        rep.hold(R, '%s: %d names' % (name, known))
        rep.hold(R2, '%s: names from modules' % name)
        rep.hold(R3, '%s: attributes of known classes' % name)
        rep.hold(R4, '%s: %d attributes of unknown things' % (name, unknown))
        rep.hold(R5, '%s: %d calls' % (name, calls))
        rep.fn |= {s.qualname for s in mod.scopes.values() if s.kind == 'function'}
        rep.calls |= {'%s:%d' % (mod.m.relpath, r.node.lineno) for r in mod.refs if isinstance(r.node, ast.Call)}

    # code of the same function name in one class, or in one module: the former is lost
IMPL = {'__file__', '__name__', '__doc__', '__path__', '__package__'}


def class_names(c):
    names = set(dir(type)) | {'__dict__', '__doc__', '__module__', '__name__', '__qualname__', '__init__'}
    for x in c.mro():
        if isinstance(x, ClassInfo):
            names |= set(x.methods) | set(x.getters) | set(x.setters) | set(x.class_attrs)
            names |= {b.name for b in x.node.body if isinstance(b, (ast.FunctionDef, ast.ClassDef))}
        else:
            e = ext_class(x)
            if e is None:
                return None
            names |= set(dir(e))
    return names


def has_check(r, n):
    """hasattr(x, 'name') is tested in an enclosing condition."""
    for p in r.parents:
        if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp, ast.While)):
            for x in ast.walk(p):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
                    return True
    return False


def foreign(mod, scope, node, depth=0):
    """Does the value come from a library that is not there to be looked at?"""
    while isinstance(node, (ast.Attribute, ast.Call, ast.Subscript, ast.Await)):
        node = node.func if isinstance(node, ast.Call) else node.value
        if isinstance(node, (ast.Name, ast.Attribute)):
            for t in mod.expr(scope, node):
                if t[0] == 'ext' and stdlib(t[1])[0] is None:
                    return True
    if isinstance(node, ast.Name):
        for t in mod.targets(scope, node.id) or ():
            if t[0] == 'ext' and stdlib(t[1])[0] is None:
                return True
        s = scope.find(node.id)
        if s is not None and depth < 3:
            for b, _ in s.binds[node.id]:
                for v, sc in assigns(mod).get(id(b), ()):
                    if foreign(mod, sc, v, depth + 1):
                        return True
    return False


def too_early(n, binds, parents):
    """Every binding of the name comes after this use, and there is no loop to come back by."""
    fn = None
    for p in parents:
        if isinstance(p, FUNCS):
            fn = p
    if fn is None:
        return False
    own = [p for p in parents[parents.index(fn) + 1:]]
    pos = (n.lineno, n.col_offset)
    for b, what in binds:
        if what and what[0] == 'param':
            return False
        if what and what[0] == 'def' or what and what[0] == 'class':
            if b.lineno <= n.lineno:
                return False
            continue
        bl = (b.lineno, getattr(b, 'col_offset', 0))
        # x = f(x): the value is evaluated first
        if bl <= pos:
            same = False
            for p in own:
                if isinstance(p, (ast.Assign, ast.AnnAssign)) and any(x is b for t in (p.targets if isinstance(p, ast.Assign) else [p.target]) for x in ast.walk(t)) and any(x is n for x in ast.walk(p.value)):
                    same = True
            if not same:
                return False
        for p in own:
            if isinstance(p, (ast.For, ast.While, ast.AsyncFor)) and any(x is b for x in ast.walk(p)):
                return False
            if isinstance(p, (ast.comprehension,)):
                return False
    # a use in a comprehension: the element comes before the loop in the text
    for p in own:
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
    return True
