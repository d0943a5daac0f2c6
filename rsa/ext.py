"""Model of built-in and library behaviour used by the interpreter.

Every function works on provenance terms (state.py); no analysed code runs.
Only pure built-in functions of *constants* are folded.
"""
import ast
import builtins
import re

from .state import (C, NONE, TRUE, FALSE, Obj, mentions, mk_eq, okey, rename, show, show_atom)

STATEFUL = {
    'configparser.ConfigParser', 'configparser.SafeConfigParser', 'ConfigParser.SafeConfigParser',
    'configparser.RawConfigParser', 'zipfile.ZipFile', 'tarfile.open', 'tarfile.TarFile', 'warc.WARCFile',
    'warc.WARCHeader', 'warc.WARCRecord', 'xml.etree.ElementTree.Element', 'xml.etree.ElementTree.SubElement',
    'xml.etree.ElementTree.ElementTree', 'xml.etree.ElementTree.TreeBuilder', 'io.StringIO', 'io.BytesIO',
    'argparse.ArgumentParser', 'optparse.OptionParser', 'contextlib.suppress', 'contextlib.closing',
    'contextlib.ExitStack', 'tempfile.TemporaryDirectory', 'urllib.request.Request', 'builtins.object',
    'hashlib.md5', 'hashlib.sha1', 'hashlib.sha256', 'hashlib.new', 'collections.Counter', 'builtins.bytearray',
    'contextlib.redirect_stdout', 'threading.Lock', 'subprocess.Popen', 'defusedxml.ElementTree.XMLParser',
}

IMPURE = {
    'time.time', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now', 'datetime.datetime.utcnow',
    'datetime.date.today', 'datetime.datetime.today', 'random.random', 'random.randint', 'random.uniform',
    'uuid.uuid4', 'builtins.input', 'builtins.object', 'os.getpid', 'tempfile.mkdtemp', 'tempfile.mkstemp',
    'tempfile.mktemp', 'os.urandom', 'urllib.request.urlopen', 'subprocess.run', 'os.popen', 'os.stat',
    'os.path.getsize', 'os.path.getmtime', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.listdir',
    'os.fdopen', 'builtins.iter', 'os.walk', 'os.path.islink', 'os.lstat', 'os.scandir', 'glob.glob', 'os.access',
    'os.path.lexists', 'os.path.getctime',
}
# results that describe the file system at the time of the call; equal arguments, equal site -> same term
IMPURE_METHODS = {'.read', '.readline', '.readlines', '.pop', '.popitem', '.next', '.__next__', '.recv', '.getvalue',
                  '.write', '.append', '.extend', '.add', '.update', '.remove', '.insert', '.setdefault', '.sort',
                  '.communicate', '.wait', '.poll'}

OPTIONAL_MODULES = {'warc', 'urlparse', 'ConfigParser', 'cStringIO', 'StringIO', 'urllib2', 'distutils', 'lxml'}

DICT_METHODS = {'get', 'items', 'keys', 'values', 'pop', 'setdefault', 'update', 'clear', 'copy', 'popitem',
                'move_to_end', 'fromkeys', '__setitem__', '__getitem__', '__delitem__', '__contains__', '__len__',
                '__iter__'}

STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'join', 'format',
               'zfill', 'ljust', 'rjust', 'center', 'swapcase', 'casefold', 'decode', 'expandtabs', 'translate',
               'removeprefix', 'removesuffix', 'hexdigest', 'isoformat', 'strftime', 'geturl', 'getvalue', 'group'}
BOOL_METHODS = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
                'isnumeric', 'has_section', 'has_option', 'is_dir', 'is_file', 'exists'}
LIST_METHODS = {'split', 'rsplit', 'splitlines', 'findall', 'keys', 'values', 'items', 'readlines', 'sections'}
TUPLE_METHODS = {'partition', 'rpartition', 'groups', 'utctimetuple', 'timetuple'}
INT_METHODS = {'find', 'rfind', 'index', 'rindex', 'count', 'toordinal', 'bit_length'}

STR_CALLS = {'os.path.join', 'os.path.abspath', 'os.path.basename', 'os.path.dirname', 'os.path.normpath',
             'os.path.realpath', 'os.path.expanduser', 'os.path.commonpath', 'os.path.commonprefix', 'os.getcwd',
             'posixpath.basename', 'posixpath.join', 'posixpath.dirname', 'builtins.str', 'builtins.repr',
             'urllib.parse.urlunparse', 'urllib.parse.urljoin', 'urllib.parse.urlunsplit', 'urllib.parse.quote',
             'urllib.parse.unquote', 'os.path.relpath', 're.sub', 're.escape', 'builtins.format', 'builtins.chr',
             'time.strftime', 'builtins.hex', 'posixpath.normpath', 'builtins.ascii', 'os.fspath'}
INT_CALLS = {'builtins.len', 'builtins.int', 'os.path.getsize', 'calendar.timegm', 'builtins.round', 'math.ceil',
             'math.floor', 'builtins.ord', 'builtins.hash', 'builtins.id', 'time.mktime'}
BOOL_CALLS = {'builtins.bool', 'builtins.isinstance', 'builtins.hasattr', 'builtins.callable', 'os.path.exists',
              'os.path.isfile', 'os.path.isdir', 'os.path.islink', 'os.path.isabs', 'builtins.issubclass'}
LIST_CALLS = {'builtins.list', 'builtins.sorted', 'os.listdir', 'glob.glob', 're.split', 're.findall'}
URLPARTS = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
URLSPLIT = ('scheme', 'netloc', 'path', 'query', 'fragment')


def result_type(v):
    if v[0] == 'call':
        n = v[1]
        if n in STR_CALLS:
            return 'str'
        if n in INT_CALLS:
            return 'int'
        if n in BOOL_CALLS:
            return 'bool'
        if n in LIST_CALLS:
            return 'list'
        if n in ('time.time', 'builtins.float', 'os.path.getmtime'):
            return 'float'
        if n == 'builtins.dict':
            return 'dict'
        if n in ('builtins.set', 'builtins.frozenset'):
            return 'set'
        if n == 'builtins.tuple':
            return 'tuple'
        return None
    n = v[2]
    if n in STR_METHODS:
        return 'str'
    if n in BOOL_METHODS:
        return 'bool'
    if n in LIST_METHODS:
        return 'list'
    if n in TUPLE_METHODS:
        return 'tuple'
    if n in INT_METHODS:
        return 'int'
    if n == 'encode':
        return 'bytes'
    return None


# ---------------------------------------------------------------------- exceptions

_ALIAS = {'socket.timeout': 'builtins.TimeoutError', 'socket.error': 'builtins.OSError',
          'select.error': 'builtins.OSError', 'os.error': 'builtins.OSError',
          'builtins.IOError': 'builtins.OSError', 'builtins.EnvironmentError': 'builtins.OSError',
          'urllib2.URLError': 'urllib.error.URLError', 'urllib2.HTTPError': 'urllib.error.HTTPError',
          'urllib.request.URLError': 'urllib.error.URLError', 'urllib.request.HTTPError': 'urllib.error.HTTPError',
          'defusedxml.DefusedXmlException': 'defusedxml.common.DefusedXmlException',
          'defusedxml.ElementTree.ParseError': 'xml.etree.ElementTree.ParseError',
          'asyncio.TimeoutError': 'builtins.TimeoutError', 'concurrent.futures.TimeoutError': 'builtins.TimeoutError'}
_PARENT = {
    'urllib.error.URLError': 'builtins.OSError', 'urllib.error.HTTPError': 'urllib.error.URLError',
    'urllib.error.ContentTooShortError': 'urllib.error.URLError',
    'xml.etree.ElementTree.ParseError': 'builtins.SyntaxError',
    'xml.parsers.expat.ExpatError': 'builtins.Exception',
    'configparser.Error': 'builtins.Exception', 'configparser.NoSectionError': 'configparser.Error',
    'configparser.NoOptionError': 'configparser.Error', 'configparser.DuplicateSectionError': 'configparser.Error',
    'configparser.MissingSectionHeaderError': 'configparser.ParsingError',
    'configparser.ParsingError': 'configparser.Error', 'configparser.DuplicateOptionError': 'configparser.Error',
    're.error': 'builtins.Exception', 'shutil.Error': 'builtins.OSError', 'shutil.SameFileError': 'shutil.Error',
    'zipfile.BadZipFile': 'builtins.Exception', 'zipfile.LargeZipFile': 'builtins.Exception',
    'http.client.HTTPException': 'builtins.Exception', 'http.client.IncompleteRead': 'http.client.HTTPException',
    'http.client.BadStatusLine': 'http.client.HTTPException', 'http.client.InvalidURL': 'http.client.HTTPException',
    'http.client.RemoteDisconnected': 'builtins.ConnectionResetError',
    'json.JSONDecodeError': 'builtins.ValueError', 'distutils.errors.DistutilsFileError': 'builtins.Exception',
    'defusedxml.common.DefusedXmlException': 'builtins.ValueError',
    'defusedxml.common.EntitiesForbidden': 'defusedxml.common.DefusedXmlException',
    'defusedxml.common.DTDForbidden': 'defusedxml.common.DefusedXmlException',
    'ssl.SSLError': 'builtins.OSError', 'socket.gaierror': 'builtins.OSError', 'socket.herror': 'builtins.OSError',
    'argparse.ArgumentError': 'builtins.Exception', 'struct.error': 'builtins.Exception',
    'subprocess.CalledProcessError': 'builtins.Exception', 'ssl.CertificateError': 'builtins.OSError',
}


def canon_exc(name):
    return _ALIAS.get(name, name)


def is_exception(name):
    name = canon_exc(name)
    if name in _PARENT:
        return True
    if name.startswith('builtins.'):
        o = getattr(builtins, name[9:], None)
        return isinstance(o, type) and issubclass(o, BaseException)
    return False


def exc_ancestors(prog, name):
    """(set of names, complete?)"""
    name = canon_exc(name)
    ci = prog.classes.get(name)
    if ci is not None:
        out, full = set(), True
        for c in ci.mro():
            if isinstance(c, str):
                a, f = exc_ancestors(prog, c)
                out |= a
                full = full and f
            else:
                out.add(c.qualname)
        return out, full
    out = {name}
    while name in _PARENT:
        name = _PARENT[name]
        out.add(name)
    if name.startswith('builtins.'):
        o = getattr(builtins, name[9:], None)
        if isinstance(o, type) and issubclass(o, BaseException):
            out |= {'builtins.' + c.__name__ for c in o.__mro__}
            return out, True
    if name == 'builtins.object':
        return out, True
    return out, False


def exc_is(prog, cls, handler):
    """Is exception class cls caught by a handler for class `handler`?"""
    handler = canon_exc(handler)
    a, full = exc_ancestors(prog, cls)
    if handler in a:
        return True
    if full:
        return False
    if handler in ('builtins.Exception', 'builtins.BaseException'):
        return True
    return None


# ---------------------------------------------------------------------- constants, strings

def ext_const(dotted):
    if dotted in ('os.sep', 'os.path.sep', 'posixpath.sep'):
        return C('/')
    if dotted == 'os.linesep':
        return C('\n')
    if dotted in ('os.curdir', 'os.path.curdir'):
        return C('.')
    if dotted in ('os.pardir', 'os.path.pardir'):
        return C('..')
    if dotted == 'os.extsep':
        return C('.')
    if dotted == 'sys.maxsize':
        return C(2 ** 63 - 1)
    return None


def single(ip, st, v):
    """A string made of one piece only is that piece, as a string."""
    if v[0] == 'cat' and len(v[1]) == 1 and v[1][0][0] not in ('fmt', 'fresh', 'exc', 'ref'):
        t = ip.typ(st, v[1][0])
        if t == 'str':
            return v[1][0]
        if t in ('int', 'float'):
            return ('call', 'builtins.str', v[1], ())
    return v


def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'call' and p[1] == 'builtins.str' and len(p[2]) == 1 and not p[3]:
            p = p[2][0]
        if p[0] == 'cat':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 'c' and not isinstance(q[2], bytes):
                q = C(str(q[2]))
                if q[2] == '':
                    continue
                if out and out[-1][0] == 'c' and isinstance(out[-1][2], str):
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C('')
    if len(out) == 1 and out[0][0] == 'c':
        return out[0]
    return ('cat', tuple(out))


_D = re.compile(r'^%0?\d*d$')


def fmt_part(spec, v):
    if spec in ('%s', '%', ''):
        return v
    if v[0] == 'c' and v[2] is not None:
        try:
            if spec[-1] in 'dsfrxgeXi':
                return C(spec % v[2])
        except Exception:
            pass
    return ('fmt', spec, v)


def _percent(ip, st, fmt, b):
    """Parts of fmt % b, or None."""
    toks = re.split(r'(%%|%(?:\(\w+\))?[#0\- +]*\d*(?:\.\d+)?[sdrifxXgGeEc])', fmt)
    specs = [t for t in toks if t.startswith('%') and t != '%%']
    if any(t.startswith('%(') for t in specs):
        return None
    ex = ip.exact_items(st, b) if b[0] == 'tup' or (b[0] == 'c' and isinstance(b[2], tuple)) else (b,)
    if ex is None or len(ex) != len(specs):
        if len(specs) == 1:
            ex = (b,)
        else:
            return None
    parts = []
    i = 0
    for t in toks:
        if t == '%%':
            parts.append(C('%'))
        elif t.startswith('%') and len(t) > 1 and t in specs:
            parts.append(fmt_part(t, ex[i]))
            i += 1
        elif t:
            parts.append(C(t))
    return parts


_OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
        'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
        'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b,
        'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b, 'Pow': lambda a, b: a ** b}
_DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod'}
_SYM = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitOr': '|',
        'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>', 'MatMult': '@'}


def _isnum(v):
    return v[0] == 'c' and isinstance(v[2], (int, float)) and not isinstance(v[2], bool)


def offset(t):
    """(base, number) of a term base + number; (None, number) of a number."""
    if _isnum(t):
        return None, t[2]
    if t[0] == 'bin' and t[1] in ('+', '-') and _isnum(t[3]) and t[2][0] == 'p':
        return t[2], t[3][2] if t[1] == '+' else -t[3][2]
    return t, 0


def binop(ip, st, op, a, b, node, counter=False):
    k = op.__class__.__name__
    if a[0] == 'pred' or b[0] == 'pred':
        out = []
        for x, first in ((a, True), (b, False)):
            if x[0] == 'pred':
                t, f = ip.truth(st, x, node)
                for s in t:
                    out += binop(ip, s, op, TRUE if first else a, b if first else TRUE, node, counter)
                for s in f:
                    out += binop(ip, s, op, FALSE if first else a, b if first else FALSE, node, counter)
                return out
    if ip.strict and k in _DUNDER:
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            o = ip.obj(st, x)
            ci = ip.prog.classes.get(o.cls) if o is not None and o.kind == 'inst' and o.cls else None
            m = ci.find(pre + _DUNDER[k] + '__') if ci is not None else None
            if m is not None and m[0] == 'method':
                return ip.call_function(m[1], x, [y], {}, st, node)
    ca, cb = st.constval(a), st.constval(b)
    if counter and k == 'Add' and cb is not None and isinstance(cb[2], (int, bool)) and (
            (ca is not None and isinstance(ca[2], int)) or a[0] in ('int', 'sum')):
        n = int(cb[2])
        if n == 0:
            return [(st, a)]
        if a[0] == 'sum':
            return [(st, ('sum', a[1] | {C(n)}))]
        lo = a[1] if a[0] == 'int' else ca[2]
        return [(st, ('int', None if lo is None or n < 0 else min(lo + n, 2)))]
    if counter and k == 'Add' and b[0] not in ('c', 'cat') and (a[0] in ('int', 'sum') or (ca is not None and _isnum(ca))):
        base = a[1] if a[0] == 'sum' else (frozenset() if a == C(0) else frozenset([a]))
        add = b[1] if b[0] == 'sum' else frozenset([b])
        return [(st, ('sum', base | add))]
    if ca is not None and cb is not None and k in _OPS and ca[2] is not None and cb[2] is not None:
        if k == 'Mod' and isinstance(ca[2], str):
            try:
                return [(st, C(ca[2] % cb[2]))]
            except Exception:
                ip.throw(st, 'builtins.TypeError', (), node)
                return []
        nums = isinstance(ca[2], (int, float)) and isinstance(cb[2], (int, float))
        if not (k == 'Mult' and nums and max(abs(ca[2]), abs(cb[2])) > 1e15 or k in ('Pow', 'LShift') and (not nums or abs(ca[2]) > 1e6 or abs(cb[2]) > 64)):
            try:
                return [(st, C(_OPS[k](ca[2], cb[2])))]
            except ZeroDivisionError:
                ip.throw(st, 'builtins.ZeroDivisionError', (), node)
                return []
            except Exception:
                ip.throw(st, 'builtins.TypeError', (), node)
                return []
    ta, tb = ip.typ(st, a), ip.typ(st, b)
    if k == 'Mod' and a[0] == 'c' and isinstance(a[2], str):
        p = _percent(ip, st, a[2], b)
        if p is not None:
            return [(st, single(ip, st, cat(p)))]
        return [(st, ('cat', (a, ('fresh', 'format', ip.site(st, node)))))]
    if k == 'Add':
        if ta == 'str' or tb == 'str':
            for x, t in ((a, ta), (b, tb)):
                if x == NONE or (t in ('int', 'list', 'float') and x[0] != 'bin'):
                    ip.throw(st, 'builtins.TypeError', (), node)
                    return []
            return [(st, single(ip, st, cat([a, b])))]
        oa, ob = ip.obj(st, a), ip.obj(st, b)
        if (oa is not None and oa.kind in ('list', 'tuple')) or (ob is not None and ob.kind in ('list', 'tuple')) or a[0] == 'tup' or b[0] == 'tup':
            ea, eb = ip.exact_items(st, a), ip.exact_items(st, b)
            if ea is not None and eb is not None:
                if a[0] == 'tup' and b[0] == 'tup':
                    return [(st, ('tup', tuple(ea) + tuple(eb)))]
                return [(st, ip.new_list(st, node, tuple(ea) + tuple(eb)))]
            m1, u1, n1 = ip.summary_of(st, a)
            m2, u2, n2 = ip.summary_of(st, b)
            return [(st, ip.new_summary(st, node, m1 | m2, u1 | u2, ne=n1 or n2))]
        if a[0] == 'int' and b[0] == 'int' or (a[0] == 'int' and _isnum(b)) or (b[0] == 'int' and _isnum(a)):
            la = a[1] if a[0] == 'int' else a[2]
            lb = b[1] if b[0] == 'int' else b[2]
            return [(st, ('int', None if la is None or lb is None or not isinstance(la, int) or not isinstance(lb, int) else min(la + lb, 2)))]
        if a == C(0):
            return [(st, b)]
        if b == C(0) and _isnum(b):
            return [(st, a)]
    if k in ('BitOr', 'Sub', 'BitAnd') and (ta == 'set' or tb == 'set'):
        oa, ob = ip.obj(st, a), ip.obj(st, b)
        ea, eb = ip.exact_items(st, a), ip.exact_items(st, b)
        if k == 'BitOr' and ea is not None and eb is not None:
            return [(st, _mk_set(ip, st, node, list(ea) + list(eb)))]
        m1, u1, n1 = ip.summary_of(st, a)
        m2, u2, n2 = ip.summary_of(st, b)
        if k == 'BitOr':
            return [(st, ip.new_summary(st, node, m1 | m2, u1 | u2, 'set', ne=n1 or n2))]
        return set_filter(ip, st, a, b, k == 'BitAnd', node)
    if k == 'BitOr' and ta == 'dict' and tb == 'dict':
        r = ip.alloc(st, node, Obj('dict', items=()), 'dict')
        dict_update(ip, st, r, a)
        dict_update(ip, st, r, b)
        return [(st, r)]
    if k == 'Mult':
        for x, y in ((a, b), (b, a)):
            ex = ip.exact_items(st, x) if x[0] in ('ref', 'tup') else None
            if ex is not None and y[0] == 'c' and isinstance(y[2], int) and y[2] * len(ex) <= 64:
                return [(st, ip.new_list(st, node, tuple(ex) * y[2]))]
    if (a == NONE or b == NONE) and k in ('Add', 'Sub', 'Mult', 'Div'):
        ip.throw(st, 'builtins.TypeError', (), node)
        return []
    if k in ('Add', 'Sub') and (_isnum(a) or _isnum(b) or a[0] == 'bin' or b[0] == 'bin' or a == b):
        (ba, oa), (bb, ob) = offset(a), offset(b)
        if k == 'Sub' and ba is not None and ba == bb and ba[0] == 'p':
            return [(st, C(oa - ob))]
        if ba is not None and bb is None and ba[0] == 'p' and oa is not None:
            n = oa + ob if k == 'Add' else oa - ob
            return [(st, ba if n == 0 else ('bin', '+', ba, C(n)))]
    if k == 'Sub' and a == b and a[0] not in ('int', 'fresh', 'ref', 'sum'):
        return [(st, C(0))] if ta == 'int' else [(st, ('bin', '-', a, b))]
    return [(st, ('bin', _SYM.get(k, k), a, b))]


def set_filter(ip, st, a, b, inter, node):
    """a & b, a - b for sets of terms."""
    ea, eb = ip.exact_items(st, a), ip.exact_items(st, b)
    if ea is None or eb is None:
        m1, u1, n1 = ip.summary_of(st, a)
        return [(st, ip.new_summary(st, node, m1, (), 'set'))]
    cur = [(st, [])]
    for x in ea:
        nxt = []
        for s, acc in cur:
            for s2, r in _member(ip, s, x, eb, node):
                nxt.append((s2, acc + [x] if r == inter else acc))
        cur = nxt
    return [(s, _mk_set(ip, s, node, acc)) for s, acc in cur]


def _mk_set(ip, st, node, items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return ip.new_list(st, node, out, 'set')


def inplace(ip, st, op, a, b, node, target):
    """a += b for a list/set object; list of states."""
    k = op.__class__.__name__
    o = ip.obj(st, a)
    if k in ('Add', 'BitOr'):
        out = []
        for s, _ in extend(ip, st, a, b, node):
            out.append(s)
        return out
    for s, v in binop(ip, st, op, a, b, node):
        return ip.assign(target, v, s)
    return [st]


def list_add(ip, st, ref, v, front=False):
    o = st.heap.get(ref[1])
    if o is None:
        return
    if o.kind == 'set' and o.items is not None and v in o.items:
        return
    if o.items is not None and len(o.items) < (400 if ip.strict else 40) and ref[1][-1] != 'old':
        st.heap[ref[1]] = o.but(items=((v,) + o.items) if front else (o.items + (v,)))
    else:
        may = ip.may_of(o) | {v}
        must = ip.must_of(o) | ({v} if v[0] != 'fx' and ref[1][-1] != 'old' else set())
        st.heap[ref[1]] = Obj(o.kind, o.cls, o.attrs, None, may, must, True)


def extend(ip, st, ref, src, node):
    """ref.extend(src) / set update: [(st, None)]."""
    so = ip.obj(st, src)
    if so is not None and so.kind in ('gen', 'iter', 'map', 'inst', 'clo'):
        hold = '$x%d_%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))
        st.env[hold] = ref

        def body(s, v):
            list_add(ip, s, s.env[hold], v)
            return [s]
        res = ip.for_each(st, src, node, body, None)
        for s in res:
            s.env.pop(hold, None)
        return [(s, NONE) for s in res]
    ex = ip.exact_items(st, src)
    if ex is not None:
        for v in ex:
            list_add(ip, st, ref, v)
        return [(st, NONE)]
    o = st.heap.get(ref[1])
    m, u, ne = ip.summary_of(st, src)
    if o is None:
        return [(st, NONE)]
    if o.kind == 'list' and o.items == () and ref[1][-1] != 'old':
        st.heap[ref[1]] = Obj(o.kind, o.cls, dict(o.attrs, **{'$src': src} if src[0] != 'ref' else {}), None, m, u, ne)
        return [(st, NONE)]
    st.heap[ref[1]] = Obj(o.kind, o.cls, o.attrs, None, ip.may_of(o) | m, ip.must_of(o) | u, ip.ne_of(o) or ne)
    return [(st, NONE)]


# ---------------------------------------------------------------------- comparisons

def compare_eq(ip, st, a, b, neg, node):
    """[(st, value)] or None for the generic atom."""
    if a == b and a[0] not in ('int', 'fresh', 'sum', 'ref'):
        return [(st, C(not neg))]
    for x, y in ((a, b), (b, a)):
        if x[0] == 'pred' and y[0] == 'c' and isinstance(y[2], bool):
            return [(st, ('pred', x[1], x[2] != (not y[2]) != neg))]
    ea = ip.exact_items(st, a) if a[0] in ('tup', 'ref') else None
    eb = ip.exact_items(st, b) if b[0] in ('tup', 'ref') else None
    oa, ob = ip.obj(st, a), ip.obj(st, b)
    for x, ox, y, oy in ((a, oa, b, ob), (b, ob, a, oa)):
        # comparison with an empty literal
        e = ip.exact_items(st, y) if y[0] in ('tup', 'ref') else None
        if e == () and (oy is None or oy.kind in ('list', 'tuple', 'set')) and x[0] in ('ref',) and ox is not None \
                and ox.kind == (oy.kind if oy is not None else 'tuple'):
            t, f = ip.truth(st, x, node)
            return [(s, C(neg)) for s in t] + [(s, C(not neg)) for s in f]
        if oy is not None and oy.kind in ('list', 'dict', 'set') and oy.items == () and not oy.may and x[0] not in ('ref', 'tup', 'c'):
            t, f = ip.truth(st, x, node)
            # an unknown false value may still differ from the empty collection
            return [(s, C(neg)) for s in t] + [(s, C(not neg)) for s in f]
    if ea is not None and eb is not None and (oa is None or oa.kind in ('list', 'tuple', 'nt')) and (ob is None or ob.kind in ('list', 'tuple', 'nt')):
        if len(ea) != len(eb):
            return [(st, C(neg))]
        cur = [st]
        out = []
        for x, y in zip(ea, eb):
            nxt = []
            for s in cur:
                for s2, r in ip.compare(s, ast.Eq(), x, y, node):
                    t, f = ip.truth(s2, r, node)
                    nxt += t
                    out += [(z, C(neg)) for z in f]
            cur = nxt
        return out + [(s, C(not neg)) for s in cur]
    if a == b and a[0] == 'ref' and (oa is None or oa.kind != 'inst'):
        return [(st, C(not neg))]
    for x, y in ((a, b), (b, a)):
        if x[0] in ('c', 'exc', 'fn', 'cls') or y == NONE and x[0] != 'ref':
            continue
        ci = ip.pclass(st, x)
        if ci is None:
            continue
        m = ci.find('__ne__') if neg else None
        flip = False
        if m is None:
            m = ci.find('__eq__')
            flip = neg
        if m is not None and m[0] == 'method':
            out = []
            for s, r in ip.call_function(m[1], x, [y], {}, st, node):
                if not flip:
                    out.append((s, r))
                elif r[0] == 'pred':
                    out.append((s, ('pred', r[1], not r[2])))
                elif r[0] == 'c':
                    out.append((s, C(not r[2])))
                else:
                    t, f = ip.truth(s, r, node)
                    out += [(z, FALSE) for z in t] + [(z, TRUE) for z in f]
            return out
        if y == NONE:
            return [(st, C(neg))]
    if ip.strict and oa is not None and ob is not None and oa.kind == ob.kind == 'inst' and a[1][-1] == b[1][-1] == 'new' \
            and oa.cls in ip.prog.classes and ob.cls in ip.prog.classes and all(x == 'builtins.object' for k in (oa.cls, ob.cls) for x in ip.prog.classes[k].ext_bases()):
        # neither class defines equality: it is identity
        return [(st, C((a == b) != neg))]
    if oa is not None and ob is not None and oa.kind != ob.kind:
        return [(st, C(neg))]
    for x, y in ((a, b), (b, a)):
        # counters carry no identity
        if x[0] in ('int', 'sum'):
            d = st.decide(mk_eq(a, b))
            if d is not None:
                return [(st, C(d != neg))]
            return [(st.copy(), TRUE), (st, FALSE)]
    return None


def const_of(ip, st, v):
    """(value,) of a constant or a sequence of constants, else None."""
    if v[0] == 'c':
        return (v[2],)
    ex = ip.exact_items(st, v) if v[0] in ('tup', 'ref') else None
    o = ip.obj(st, v)
    if ex is None or o is not None and o.kind not in ('list', 'tuple', 'nt'):
        return None
    vals = [const_of(ip, st, x) for x in ex]
    if None in vals:
        return None
    vals = [x[0] for x in vals]
    return (vals if o is not None and o.kind == 'list' else tuple(vals),)


def _member(ip, st, a, items, node):
    """Is a equal to one of items: [(st, bool)]."""
    cur = [st]
    out = []
    for x in items:
        nxt = []
        for s in cur:
            for s2, r in ip.compare(s, ast.Eq(), a, x, node):
                t, f = ip.truth(s2, r, node)
                out += [(z, True) for z in t]
                nxt += f
        cur = nxt
    return out + [(s, False) for s in cur]


def compare_in(ip, st, a, b, neg, node):
    if b[0] == 'c' and isinstance(b[2], str):
        if a[0] == 'c' and isinstance(a[2], str):
            return [(st, C((a[2] in b[2]) != neg))]
    if b[0] == 'cat' and a[0] == 'c' and isinstance(a[2], str):
        for p in b[1]:
            if p[0] == 'c' and isinstance(p[2], str) and a[2] in p[2]:
                return [(st, C(not neg))]
    if b == NONE:
        ip.throw(st, 'builtins.TypeError', (), node)
        return []
    o = ip.obj(st, b)
    ex = ip.exact_items(st, b) if not (b[0] == 'c' and isinstance(b[2], str)) else None
    if ex is not None and (o is None or o.kind != 'inst'):
        return [(s, C(r != neg)) for s, r in _member(ip, st, a, ex, node)]
    if o is not None:
        if o.kind == 'inst' and o.cls:
            ci = ip.prog.classes.get(o.cls)
            m = ci.find('__contains__')
            if m is not None and m[0] == 'method':
                return _negate(ip, ip.call_function(m[1], b, [a], {}, st, node), neg, node)
            if not any(x in ('builtins.dict', 'collections.OrderedDict') for x in ci.ext_bases()):
                m = ci.find('__iter__')
                if m is not None and m[0] == 'method':
                    return _in_iter(ip, st, a, b, neg, node)
        if o.kind == 'dict' or o.kind == 'inst':
            return _negate(ip, dict_has(ip, st, b, a, node), neg, node)
        if o.kind in ('list', 'set', 'deque'):
            must = [x for x in o.must if x == a and a[0] not in ('int', 'fresh')]
            if must:
                return [(st, C(not neg))]
            return [(st.copy(), C(not neg)), (st, C(neg))]
        if o.kind in ('gen', 'iter', 'map'):
            return _in_iter(ip, st, a, b, neg, node)
    ci = ip.pclass(st, b)
    if ci is not None:
        m = ci.find('__contains__')
        if m is not None and m[0] == 'method':
            return _negate(ip, ip.call_function(m[1], b, [a], {}, st, node), neg, node)
    bb = b
    while True:
        b2 = base_src(bb)
        if b2[0] == 'meth' and b2[2] == 'keys' and not b2[3]:
            b2 = b2[1]
        if b2 == bb:
            break
        bb = b2
    atom = ('in', a, bb)
    d = st.decide(atom)
    if d is not None:
        return [(st, C(d != neg))]
    return [(st, ('pred', atom, neg))]


def _in_iter(ip, st, a, b, neg, node):
    hits = []

    def body(s, v):
        res = []
        for s2, r in ip.compare(s, ast.Eq(), a, v, node):
            t, f = ip.truth(s2, r, node)
            hits.extend(t)
            res += f
        return res
    ends = ip.for_each(st, b, node, body, None)
    return [(s, C(not neg)) for s in hits] + [(s, C(neg)) for s in ends]


def _negate(ip, res, neg, node):
    out = []
    for s, r in res:
        if not neg:
            out.append((s, r))
        elif r[0] == 'pred':
            out.append((s, ('pred', r[1], not r[2])))
        elif r[0] == 'c':
            out.append((s, C(not r[2])))
        else:
            t, f = ip.truth(s, r, node)
            out += [(x, FALSE) for x in t] + [(x, TRUE) for x in f]
    return out


def norm_lt(ip, st, atom):
    """Canonical form of a < b: (atom, flipped)."""
    a, b = atom[1], atom[2]
    # n < len(x)  <=>  not (len(x) < n+1)
    if a[0] == 'c' and isinstance(a[2], int) and not isinstance(a[2], bool) and ip.typ(st, b) == 'int' and b[0] != 'c':
        return ('lt', b, C(a[2] + 1)), True
    return atom, False


def atom_text(atom, val):
    return '%s%s' % ('' if val else 'not ', show_atom(atom))


# ---------------------------------------------------------------------- subscripts

def simplify_idx(ip, st, v):
    b, i = v[1], v[2]
    if v[0] != 'idx':
        return v
    if b[0] == 'call' and i[0] == 'c' and isinstance(i[2], int):
        if b[1] == 'urllib.parse.urlparse' and 0 <= i[2] < 6:
            return ('attr', b, URLPARTS[i[2]])
        if b[1] == 'urllib.parse.urlsplit' and 0 <= i[2] < 5:
            return ('attr', b, URLSPLIT[i[2]])
        if b[1] == 'os.path.split' and i[2] in (0, 1):
            return ('call', 'os.path.dirname' if i[2] == 0 else 'os.path.basename', b[2], ())
    if b[0] == 'elem' and i[0] == 'c':
        # elements of d.items()
        src = b[1]
        if src[0] == 'meth' and src[2] == 'items' and not src[3]:
            if i[2] == 0:
                return ('elem', src[1], b[2])
            if i[2] == 1:
                return ('idx', src[1], ('elem', src[1], b[2]))
    sv = st.sa.get((b, '[%s]' % okey(i)))
    if sv is not None:
        return sv
    return ('idx', b, i)


def get_item(ip, st, v, i, node):
    if ip.strdom is not None and ip.strdom.dom(v):
        return ip.strdom.item(st, v, i, node)
    o = ip.obj(st, v)
    if v == NONE:
        ip.throw(st, 'builtins.TypeError', (), node)
        return []
    if o is not None and o.kind == 'inst' and o.cls:
        ci = ip.prog.classes.get(o.cls)
        m = ci.find('__getitem__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [i], {}, st, node)
        if any(x in ('builtins.dict', 'collections.OrderedDict') for x in ci.ext_bases()):
            return dict_get(ip, st, v, i, node)
        return [(st, simplify_idx(ip, st, ('idx', v, i)))]
    if o is not None and o.kind == 'dict':
        return dict_get(ip, st, v, i, node)
    if o is not None and o.kind == 'ext':
        return ip.generic_ext(st, '%s.__getitem__' % o.cls, v, [i], {}, node)
    ex = ip.exact_items(st, v) if not (v[0] == 'c' and isinstance(v[2], str)) else None
    ic = st.constval(i)
    if ex is not None and ic is not None and isinstance(ic[2], int) and (o is None or o.kind != 'set'):
        if -len(ex) <= ic[2] < len(ex):
            return [(st, ex[ic[2]])]
        ip.throw(st, 'builtins.IndexError', (), node)
        return []
    if v[0] == 'c' and ic is not None:
        try:
            return [(st, C(v[2][ic[2]]))]
        except IndexError:
            ip.throw(st, 'builtins.IndexError', (), node)
            return []
        except Exception:
            return [(st, ('idx', v, i))]
    if o is not None and o.items is None and o.kind in ('list', 'deque'):
        src = o.attrs.get('$src')
        if src is not None:
            return [(st, ('idx', src, i))]
        if len(o.may) == 1 and o.must == o.may:
            return [(st, next(iter(o.may)))]
        return [(st, ('fresh', 'item', ip.site(st, node)))]
    if v[0] == 'ext' and v[1] == 'os.environ':
        return [(st, ('idx', v, i))]
    ci = ip.pclass(st, v)
    if ci is not None:
        m = ci.find('__getitem__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [i], {}, st, node)
    return [(st, simplify_idx(ip, st, ('idx', v, i)))]


def get_slice(ip, st, v, sl, node):
    if ip.strdom is not None and ip.strdom.dom(v):
        r = ip.strdom.slice(st, v, tuple(sl) + (None,) * (3 - len(sl)))
        if r is not None:
            return [(st, r)]
        return ip.strdom.unk(ip, st, 'slice', node)
    cs = []
    for x in sl:
        if x is None or x == NONE:
            cs.append(None)
        else:
            c = st.constval(x)
            cs.append(c[2] if c is not None else x)
    const = all(x is None or isinstance(x, int) for x in cs)
    ex = ip.exact_items(st, v) if not (v[0] == 'c' and isinstance(v[2], str)) else None
    if v[0] == 'c' and isinstance(v[2], (str, bytes)) and const:
        return [(st, C(v[2][slice(*cs)]))]
    if ex is not None and const:
        r = tuple(ex)[slice(*cs)]
        if v[0] == 'tup':
            return [(st, ('tup', r))]
        return [(st, ip.new_list(st, node, r))]
    if const and cs == [None, None, None]:
        o = ip.obj(st, v)
        if o is not None and o.kind == 'list':
            return [(st, ip.alloc(st, node, o.but(), 'slice'))]
        return [(st, v if v[0] != 'ref' else ('call', 'builtins.list', (v,), ()))]
    if ip.obj(st, v) is not None and ip.obj(st, v).kind == 'list':
        m, u, ne = ip.summary_of(st, v)
        return [(st, ip.new_summary(st, node, m, ()))]
    return [(st, ('slice', v) + tuple(x if x is None or isinstance(x, tuple) else C(x) for x in cs))]


def set_item(ip, st, v, i, val, node):
    """List of states."""
    o = ip.obj(st, v)
    if o is None:
        st.sa[(v, '[%s]' % okey(i))] = val
        if ip.store_hook is not None:
            ip.store_hook(ip, st, v, ('item', i), val, node)
        return [st]
    if ip.store_hook is not None:
        ip.store_hook(ip, st, v, ('item', i), val, node)
    if o.kind == 'inst' and o.cls:
        ci = ip.prog.classes.get(o.cls)
        m = ci.find('__setitem__')
        if m is not None and m[0] == 'method':
            return [s for s, _ in ip.call_function(m[1], v, [i, val], {}, st, node)]
        dict_set(ip, st, v, i, val)
        return [st]
    if o.kind == 'dict':
        dict_set(ip, st, v, i, val)
        return [st]
    if o.kind in ('list', 'deque'):
        ic = st.constval(i)
        if o.items is not None and ic is not None and isinstance(ic[2], int):
            if -len(o.items) <= ic[2] < len(o.items):
                it = list(o.items)
                it[ic[2]] = val
                st.heap[v[1]] = o.but(items=tuple(it))
                return [st]
            ip.throw(st, 'builtins.IndexError', (), node)
            return []
        st.heap[v[1]] = Obj(o.kind, o.cls, o.attrs, None, ip.may_of(o) | {val}, frozenset(), True)
        return [st]
    if o.kind == 'ext':
        ip.generic_ext(st, '%s.__setitem__' % o.cls, v, [i, val], {}, node)
    return [st]


def set_slice(ip, st, v, val, full, node):
    o = ip.obj(st, v)
    if o is None or o.kind != 'list':
        return [st]
    if full:
        st.heap[v[1]] = Obj('list', o.cls, {}, ())
        return [s for s, _ in extend(ip, st, v, val, node)]
    m, u, ne = ip.summary_of(st, val)
    st.heap[v[1]] = Obj('list', o.cls, {}, None, ip.may_of(o) | m, frozenset(), False)
    return [st]


def del_item(ip, st, v, i, node):
    o = ip.obj(st, v)
    if o is None:
        if ip.store_hook is not None:
            ip.store_hook(ip, st, v, ('delitem', i), NONE, node)
        return [st]
    if o.kind == 'inst' and o.cls and i is not None:
        ci = ip.prog.classes.get(o.cls)
        m = ci.find('__delitem__')
        if m is not None and m[0] == 'method':
            return [s for s, _ in ip.call_function(m[1], v, [i], {}, st, node)]
    if o.kind in ('dict', 'inst') and i is not None:
        return [s for s, _ in dict_pop(ip, st, v, i, None, node)]
    if o.kind in ('list', 'deque'):
        ic = st.constval(i) if i is not None else None
        if o.items is not None and ic is not None and isinstance(ic[2], int):
            if -len(o.items) <= ic[2] < len(o.items):
                it = list(o.items)
                del it[ic[2]]
                st.heap[v[1]] = o.but(items=tuple(it))
                return [st]
            ip.throw(st, 'builtins.IndexError', (), node)
            return []
        if i is None:
            st.heap[v[1]] = Obj('list', o.cls, {}, ())
            return [st]
        st.heap[v[1]] = Obj(o.kind, o.cls, {}, None, ip.may_of(o), frozenset(), False)
    return [st]


def unpack_raises(ip, st, v, n, node):
    return None


# ---------------------------------------------------------------------- dictionaries

def dict_set(ip, st, ref, k, v):
    o = st.heap.get(ref[1]) if ref[0] == 'ref' else None
    if o is None:
        return
    items = list(o.items or ())
    for j, (kk, vv, m) in enumerate(items):
        if kk == k or (k[0] != 'c' or kk[0] != 'c') and st.decide(mk_eq(kk, k)) is True:
            if ref[1][-1] == 'old' and vv != v:
                v = ('fresh', 'weak', (ref[1], okey(k)))
            items[j] = (kk, v, True)
            st.heap[ref[1]] = o.but(items=tuple(items))
            return
    if len(items) >= 60:
        st.heap[ref[1]] = o.but(may=o.may | {('fxp', ('fx', ('tup', (k, v)), frozenset()))})
        return
    # a key that may equal an existing symbolic one
    for j, (kk, vv, m) in enumerate(items):
        if (kk[0] != 'c' or k[0] != 'c') and st.decide(mk_eq(kk, k)) is not False:
            items[j] = (kk, ('fresh', 'aliased', (ref[1], okey(kk))) if vv != v else vv, m)
    items.append((k, v, True))
    st.heap[ref[1]] = o.but(items=tuple(items))


def not_pairs(ip, st, other):
    """An element of other is known not to be a pair."""
    o = ip.obj(st, other)
    ex = ip.exact_items(st, other) if o is not None and o.kind == 'list' or other[0] == 'tup' else None
    for x in ex or ():
        p = ip.exact_items(st, x)
        if p is not None and len(p) != 2:
            return True
    return False


def dict_update(ip, st, ref, other):
    o = ip.obj(st, other)
    if o is None or o.kind not in ('dict', 'inst'):
        ex = ip.exact_items(st, other) if o is not None and o.kind == 'list' or other[0] == 'tup' else None
        if ex is not None:
            for x in ex:
                p = ip.exact_items(st, x)
                if p is not None and len(p) == 2:
                    dict_set(ip, st, ref, p[0], p[1])
                elif p is None:
                    d = st.heap[ref[1]]
                    st.heap[ref[1]] = d.but(may=d.may | {('fxp', ('fx', ('tup', (('idx', x, C(0)), ('idx', x, C(1)))), frozenset()))})
            return
        if other != NONE and ref[0] == 'ref' and ref[1] in st.heap:
            d = st.heap[ref[1]]
            st.heap[ref[1]] = d.but(may=d.may | {('fxp', ('fx', ('tup', (('elem', other, ('q',)), ('idx', other, ('elem', other, ('q',))))), frozenset()))})
        return
    for k, v, m in o.items or ():
        if m:
            dict_set(ip, st, ref, k, v)
        else:
            d = st.heap[ref[1]]
            if not any(kk == k for kk, _, _ in d.items):
                st.heap[ref[1]] = d.but(items=d.items + ((k, v, False),))
    if o.may:
        d = st.heap[ref[1]]
        st.heap[ref[1]] = d.but(may=d.may | o.may)


def _lookup(ip, st, ref, k, node):
    """[(st, index or None or 'may')] of key k in dictionary ref."""
    out = []
    cur = [st]
    o = st.heap.get(ref[1])
    for j, (kk, vv, m) in enumerate(o.items or ()):
        if kk == k and kk[0] not in ('int',):
            for s in cur:
                if m:
                    out.append((s, j))
                else:
                    out.append((s.copy(), j))
                    out.append((s, None))
            return out
    for j, (kk, vv, m) in enumerate(o.items or ()):
        nxt = []
        for s in cur:
            for s2, r in ip.compare(s, ast.Eq(), k, kk, node):
                t, f = ip.truth(s2, r, node)
                for z in t:
                    out.append((z, j))
                    if not m:
                        out.append((z.copy(), None))
                nxt += f
        cur = nxt
    for s in cur:
        if o.may or o.attrs.get('$open'):
            out.append((s.copy(), 'may'))
        out.append((s, None))
    return out


def _may_value(ip, st, ref, k, node):
    o = st.heap[ref[1]]
    vals = set()
    for x in o.may:
        if x[0] == 'fxp':
            f = x[1]
            t = f[1] if f[0] == 'fx' else f
            if t[0] == 'tup' and len(t[1]) == 2:
                if t[1][1][0] == 'idx' and t[1][1][2] == t[1][0]:
                    vals.add(('idx', t[1][1][1], k))
                else:
                    vals.add(t[1][1])
    if len(vals) == 1:
        v = next(iter(vals))
        if not mentions(v, ('q',)):
            return v
    return ('fresh', 'entry', (ref[1], okey(k)))


def dict_get(ip, st, ref, k, node, default=None):
    """Value for key k; KeyError (default None) or the default value."""
    out = []
    for s, j in _lookup(ip, st, ref, k, node):
        if j is None:
            if default is None:
                ip.throw(s, 'builtins.KeyError', (k,), node)
            else:
                out.append((s, default))
        elif j == 'may':
            out.append((s, _may_value(ip, s, ref, k, node)))
        else:
            out.append((s, s.heap[ref[1]].items[j][1]))
    return out


def dict_has(ip, st, ref, k, node):
    o = st.heap.get(ref[1])
    if o.attrs.get('$open') and not o.items:
        atom = ('in', k, ref)
        d = st.decide(atom)
        return [(st, C(d))] if d is not None else [(st, ('pred', atom, False))]
    out = []
    for s, j in _lookup(ip, st, ref, k, node):
        if j is not None and j != 'may':
            d = s.heap[ref[1]]
            kk, v, m = d.items[j]
            if not m:
                s.heap[ref[1]] = d.but(items=d.items[:j] + ((kk, v, True),) + d.items[j + 1:])
        elif j is None:
            d = s.heap[ref[1]]
            drop = [x for x in d.items if not x[2] and x[0] == k]
            if drop:
                s.heap[ref[1]] = d.but(items=tuple(x for x in d.items if x not in drop))
        out.append((s, C(j is not None)))
    return out


def dict_pop(ip, st, ref, k, default, node):
    out = []
    for s, j in _lookup(ip, st, ref, k, node):
        if j is None:
            if default is None:
                ip.throw(s, 'builtins.KeyError', (k,), node)
            else:
                out.append((s, default))
        elif j == 'may':
            out.append((s, _may_value(ip, s, ref, k, node)))
        else:
            d = s.heap[ref[1]]
            v = d.items[j][1]
            if ref[1][-1] != 'old':
                s.heap[ref[1]] = d.but(items=d.items[:j] + d.items[j + 1:])
            out.append((s, v))
    return out


def dict_list(ip, st, ref, what, node):
    o = st.heap[ref[1]]

    def pick(k, v):
        return k if what == 'keys' else v if what == 'values' else ('tup', (k, v))
    if not o.may and not o.attrs.get('$open') and all(m for _, _, m in o.items):
        return ip.new_list(st, node, [pick(k, v) for k, v, _ in o.items])
    may = {pick(k, v) for k, v, _ in o.items}
    must = {pick(k, v) for k, v, m in o.items if m}
    for x in o.may:
        f = x[1] if x[0] == 'fxp' else x
        if f[0] == 'fx' and f[1][0] == 'tup':
            may.add(('fx', pick(*f[1][1]), f[2]))
    if o.attrs.get('$open'):
        t = ('elem', ref, ('q',))
        may.add(('fx', pick(t, ('idx', ref, t)), frozenset()))
    return ip.new_summary(st, node, may, must)


# ---------------------------------------------------------------------- iteration helpers

_WRAP = {'builtins.sorted', 'builtins.list', 'builtins.iter', 'builtins.tuple', 'builtins.set', 'builtins.reversed',
         'builtins.frozenset'}


def base_src(t):
    while True:
        if t[0] == 'call' and t[1] in _WRAP and len(t[2]) >= 1:
            t = t[2][0]
        elif t[0] == 'meth' and t[2] in ('copy', 'keys', '__iter__') and not t[3]:
            t = t[1]
        else:
            return t


def reordered(t):
    while True:
        if t[0] == 'call' and t[1] in _WRAP and len(t[2]) >= 1:
            if t[1] in ('builtins.sorted', 'builtins.set', 'builtins.reversed', 'builtins.frozenset'):
                return True
            t = t[2][0]
        elif t[0] == 'meth' and t[2] in ('copy', 'keys', '__iter__') and not t[3]:
            t = t[1]
        else:
            return False


def zip_like(ip, st, it):
    if it[0] == 'call' and it[1] == 'builtins.enumerate':
        inner = it[2][0]
        start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', C(0))

        def drive(ip, st, node, body, live):
            lo = start[2] if start[0] == 'c' else None
            ex = ip.exact_items(st, inner)
            n = [0]

            def b(s, v):
                if ex is not None and lo is not None:
                    i = C(lo + n[0])
                else:
                    i = ('int', lo)
                return body(s, ('tup', (i, v)))
            if ex is not None and lo is not None:
                cur = [st]
                for j, v in enumerate(ex):
                    nxt = []
                    for s in cur:
                        nxt += body(s, ('tup', (C(lo + j), v)))
                    cur = ip.merge(nxt, live)
                return cur
            return ip.for_each(st, inner, node, b, live)
        return drive
    if it[0] == 'call' and it[1] == 'builtins.zip':
        srcs = it[2]

        def drive(ip, st, node, body, live):
            exs = [ip.exact_items(st, s) for s in srcs]
            if all(e is not None for e in exs):
                cur = [st]
                for t in zip(*exs):
                    nxt = []
                    for s in cur:
                        nxt += body(s, ('tup', tuple(t)))
                    cur = ip.merge(nxt, live)
                return cur

            def b(s, v):
                t = [v]
                for x in srcs[1:]:
                    t.append(('elem', base_src(x), v[2]) if v[0] == 'elem' else ('fresh', 'zip', ip.site(s, node)))
                return body(s, ('tup', tuple(t)))
            return ip.for_each(st, srcs[0], node, b, live)
        return drive
    if it[0] == 'call' and it[1] == 'itertools.chain':
        srcs = it[2]

        def drive(ip, st, node, body, live):
            cur = [st]
            for x in srcs:
                nxt = []
                for s in cur:
                    nxt += ip.for_each(s, x, node, body, live)
                cur = ip.merge(nxt, live)
            return cur
        return drive
    if it[0] == 'call' and it[1] == 'itertools.chain.from_iterable' and len(it[2]) == 1:
        def drive(ip, st, node, body, live):
            def b(s, v):
                return ip.for_each(s, v, node, body, None)
            return ip.for_each(st, it[2][0], node, b, live)
        return drive
    return None


def for_map(ip, st, o, node, body, live):
    """Iterate over map(f, src) / filter(f, src)."""
    f, src, kind = o.attrs['f'], o.attrs['src'], o.cls
    hold = '$m%d_%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))
    st.env[hold] = f

    def b(s, v):
        fv = s.env[hold]
        if kind == 'filter':
            out = []
            if fv == NONE:
                t, no = ip.truth(s, v, node)
                for x in t:
                    out += body(x, v)
                return out + no
            for s2, r in ip.call_value(s, fv, [v], {}, node):
                t, no = ip.truth(s2, r, node)
                for x in t:
                    out += body(x, v)
                out += no
            return out
        out = []
        for s2, r in ip.call_value(s, fv, [v], {}, node):
            out += body(s2, r)
        return out
    res = ip.for_each(st, src, node, b, live)
    for s in res:
        s.env.pop(hold, None)
    return res


def nt_names(f, st, ip):
    a = f[2]
    if len(a) < 2:
        return None
    if a[1][0] == 'c' and isinstance(a[1][2], str):
        return a[1][2].replace(',', ' ').split()
    ex = ip.exact_items(st, a[1])
    if ex is not None and all(x[0] == 'c' for x in ex):
        return [x[2] for x in ex]
    return None


# ---------------------------------------------------------------------- with statements

def enter(ip, st, ctx, node):
    """[(st, bound value)]."""
    o = ip.obj(st, ctx)
    if o is not None:
        if o.kind == 'file':
            return [(st, ctx)]
        if o.kind == 'inst' and o.cls:
            m = ip.prog.classes[o.cls].find('__enter__')
            if m is not None and m[0] == 'method':
                return ip.call_function(m[1], ctx, [], {}, st, node)
            return [(st, ctx)]
        if o.kind == 'ext':
            if o.cls == 'contextlib.closing':
                return [(st, o.attrs.get('$a0', ctx))]
            if o.cls == 'tempfile.TemporaryDirectory':
                return [(st, ('attr', ctx, 'name'))]
            return [(st, ctx)]
        if o.kind == 'gen':
            ip.unk('context manager generator', st, node)
            return [(st, ('fresh', 'with', ip.site(st, node)))]
    ci = ip.pclass(st, ctx)
    if ci is not None:
        m = ci.find('__enter__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], ctx, [], {}, st, node)
    return [(st, ctx)]


def leave(ip, st, ctx, node):
    """List of states after __exit__."""
    o = ip.obj(st, ctx)
    if o is not None:
        if o.kind == 'file':
            return [s for s, _ in call_method(ip, st, ctx, 'close', [], {}, node)]
        if o.kind == 'inst' and o.cls:
            m = ip.prog.classes[o.cls].find('__exit__')
            if m is not None and m[0] == 'method':
                return [s for s, _ in ip.call_function(m[1], ctx, [NONE, NONE, NONE], {}, st, node)]
            return [st]
        if o.kind == 'ext':
            if o.cls == 'contextlib.closing':
                return [s for s, _ in call_method(ip, st, o.attrs.get('$a0', ctx), 'close', [], {}, node)]
            if o.cls == 'contextlib.suppress':
                return [st]
            return [s for s, _ in call_method(ip, st, ctx, 'close', [], {}, node)]
        return [st]
    if ctx[0] in ('call', 'meth', 'fresh', 'attr', 'p', 'elem', 'idx'):
        return [s for s, _ in call_method(ip, st, ctx, 'close', [], {}, node)]
    return [st]


def suppresses(ip, st, ctx, e):
    o = ip.obj(st, ctx)
    if o is not None and o.kind == 'ext' and o.cls == 'contextlib.suppress':
        r = False
        for k, v in o.attrs.items():
            if k.startswith('$a') and v[0] in ('ext', 'cls'):
                m = exc_is(ip.prog, e[1], v[1])
                if m is True:
                    return True
                if m is None:
                    r = None
        return r
    if o is not None and o.kind == 'inst' and o.cls:
        m = ip.prog.classes[o.cls].find('__exit__')
        if m is not None:
            for n in ast.walk(m[1].node):
                if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and not n.value.value):
                    return None
    return False


# ---------------------------------------------------------------------- methods

def _hook(ip, st, names, recv, args, kws, node):
    for n in names:
        h = ip.hooks.get(n)
        if h is not None:
            r = h(ip, st, n, recv, args, kws, node)
            if r is not None:
                return r
    return None


def call_method(ip, st, recv, name, args, kws, node):
    """Method of a value that is no project object: [(st, value)]."""
    ip.tick()
    o = ip.obj(st, recv)
    tn = None
    if o is not None:
        tn = o.cls if o.kind == 'ext' else o.kind
    names = ([tn + '.' + name] if isinstance(tn, str) else []) + ['.' + name]
    label = names[0]
    ip.ext_seen[label] = ip.ext_seen.get(label, 0) + 1
    r = _hook(ip, st, names, recv, args, kws, node)
    if r is not None:
        return r
    if recv[0] == 'super':
        return super_method(ip, st, recv, name, args, kws, node)
    if o is not None:
        if o.kind in ('list', 'deque', 'tuple', 'nt'):
            r = list_method(ip, st, recv, o, name, args, kws, node)
        elif o.kind == 'set':
            r = set_method(ip, st, recv, o, name, args, kws, node)
        elif o.kind == 'dict':
            r = dict_method(ip, st, recv, o, name, args, kws, node)
        elif o.kind == 'file':
            r = file_method(ip, st, recv, o, name, args, kws, node)
        elif o.kind in ('iter', 'gen') and name in ('__next__', 'next'):
            r = next_of(ip, st, recv, None, node)
        elif o.kind == 'inst':
            ci = ip.prog.classes.get(o.cls) if o.cls else None
            if ci is not None and any(x in ('builtins.dict', 'collections.OrderedDict') for x in ci.ext_bases()) and name in DICT_METHODS:
                r = dict_method(ip, st, recv, o, name, args, kws, node)
            elif name == '__class__':
                r = [(st, ('cls', o.cls))]
            elif name == '__setattr__' and len(args) == 2 and args[0][0] == 'c':
                r = [(s, NONE) for s in ip.set_attr(st, recv, args[0][2], args[1], node, raw=True)]
        elif o.kind == 'ext':
            r = ext_method(ip, st, recv, o, name, args, kws, node)
        if r is not None:
            return r
        return ip.generic_ext(st, label, recv, args, kws, node)
    if recv[0] == 'c':
        r = const_method(ip, st, recv, name, args, kws, node)
        if r is not None:
            return r
    if recv[0] == 'tup':
        if name in ('index', 'count'):
            return [(st, ('meth', recv, name, tuple(args), ()))]
    if recv[0] in ('call', 'meth') and not isinstance(recv[1], str) or recv[0] == 'call' and recv[1].startswith('re.'):
        r = re_method(ip, st, recv, name, args, kws, node)
        if r is not None:
            return r
    if name in ('startswith', 'endswith') and recv[0] == 'cat' and args and args[0][0] == 'c' and isinstance(args[0][2], str):
        p = recv[1][0] if name == 'startswith' else recv[1][-1]
        if p[0] == 'c' and isinstance(p[2], str):
            k = args[0][2]
            if len(p[2]) >= len(k):
                return [(st, C(getattr(p[2], name)(k)))]
            if not (k.startswith(p[2]) if name == 'startswith' else k.endswith(p[2])):
                return [(st, FALSE)]
    if name == '__eq__' and len(args) == 1:
        return ip.compare(st, ast.Eq(), recv, args[0], node)
    if name == '__len__' and not args:
        return call_builtin(ip, st, 'builtins.len', [recv], {}, node)
    if name == 'join' and ip.typ(st, recv) == 'str' and len(args) == 1:
        return [(st, ('call', 'str.join', (recv, args[0]), ()))]
    if name == 'get' and recv[0] not in ('super',) and 1 <= len(args) <= 2 and ip.typ(st, recv) == 'dict':
        pass
    return ip.generic_ext(st, '.' + name, recv, args, kws, node)


def super_method(ip, st, recv, name, args, kws, node):
    me = recv[2]
    o = ip.obj(st, me)
    if name == '__init__':
        return [(st, NONE)]
    if name == '__setattr__' and len(args) == 2:
        if args[0][0] == 'c':
            return [(s, NONE) for s in ip.set_attr(st, me, args[0][2], args[1], node, raw=True)]
        # unknown attribute name
        if o is not None:
            st.heap[me[1]] = o.setattr('$any', ('tup', (args[0], args[1])))
        return [(st, NONE)]
    if name in DICT_METHODS and o is not None:
        return dict_method(ip, st, me, o, name, args, kws, node)
    if name == '__new__':
        return [(st, me)]
    return ip.generic_ext(st, '.' + name, me, args, kws, node)


def const_method(ip, st, recv, name, args, kws, node):
    v = recv[2]
    if isinstance(v, str):
        if name == 'join' and len(args) == 1:
            ex = ip.exact_items(st, args[0])
            if ex is not None:
                parts = []
                for i, x in enumerate(ex):
                    if i and v:
                        parts.append(recv)
                    parts.append(x)
                return [(st, single(ip, st, cat(parts)))]
            o = ip.obj(st, args[0])
            if o is not None and o.kind in ('gen', 'map', 'iter'):
                out = []
                for s, l in collect(ip, st, args[0], 'list', node):
                    out += const_method(ip, s, recv, name, [l], {}, node)
                return out
            if o is not None and o.items is None:
                v = ('fresh', 'join', ip.site(st, node))
                ip.types[v] = 'str'
                return [(st, v)]
            return [(st, ('call', 'str.join', (recv, args[0]), ()))]
        if name == 'format':
            p = _brace(v, args, kws)
            if p is not None:
                return [(st, single(ip, st, cat(p)))]
            return [(st, ('cat', (recv, ('fresh', 'format', ip.site(st, node)))))]
    if all(a[0] == 'c' for a in args) and not kws and isinstance(v, (str, bytes, int, float, tuple)):
        f = getattr(v, name, None)
        if f is not None and name not in ('format_map', '__reduce__'):
            try:
                r = f(*[a[2] for a in args])
            except Exception as e:
                ip.throw(st, 'builtins.' + type(e).__name__, (), node)
                return []
            if isinstance(r, list):
                return [(st, ip.new_list(st, node, [C(x) for x in r]))]
            if isinstance(r, tuple):
                return [(st, ('tup', tuple(C(x) for x in r)))]
            return [(st, C(r))]
        if f is None:
            ip.throw(st, 'builtins.AttributeError', (C(name),), node)
            return []
    elif v is None:
        ip.throw(st, 'builtins.AttributeError', (C(name),), node)
        return []
    return None


def _brace(fmt, args, kws):
    parts = []
    i = 0
    n = 0
    for t in re.split(r'(\{\{|\}\}|\{[^{}]*\})', fmt):
        if t == '{{':
            parts.append(C('{'))
        elif t == '}}':
            parts.append(C('}'))
        elif t.startswith('{') and t.endswith('}') and len(t) >= 2:
            body = t[1:-1]
            nm, _, spec = body.partition(':')
            nm, _, conv = nm.partition('!')
            if nm == '':
                if n >= len(args):
                    return None
                v = args[n]
                n += 1
            elif nm.isdigit():
                if int(nm) >= len(args):
                    return None
                v = args[int(nm)]
            elif nm in kws:
                v = kws[nm]
            else:
                return None
            if spec:
                spec = '%' + spec
                v = fmt_part(spec, v)
            parts.append(v)
        elif t:
            parts.append(C(t))
    return parts


def list_method(ip, st, recv, o, name, args, kws, node):
    if name == 'append' and len(args) == 1:
        list_add(ip, st, recv, args[0])
        return [(st, NONE)]
    if name == 'appendleft' and len(args) == 1:
        list_add(ip, st, recv, args[0], front=True)
        return [(st, NONE)]
    if name in ('extend', '__iadd__') and len(args) == 1:
        return extend(ip, st, recv, args[0], node)
    if name == 'insert' and len(args) == 2:
        if o.items is not None and args[0][0] == 'c' and isinstance(args[0][2], int):
            it = list(o.items)
            it.insert(args[0][2], args[1])
            st.heap[recv[1]] = o.but(items=tuple(it))
        else:
            list_add(ip, st, recv, args[1])
        return [(st, NONE)]
    if name in ('pop', 'popleft'):
        i = args[0] if args else C(0 if name == 'popleft' else -1)
        if o.items is not None and i[0] == 'c':
            if not o.items or not -len(o.items) <= i[2] < len(o.items):
                ip.throw(st, 'builtins.IndexError', (), node)
                return []
            it = list(o.items)
            v = it.pop(i[2])
            st.heap[recv[1]] = o.but(items=tuple(it))
            return [(st, v)]
        st.heap[recv[1]] = Obj(o.kind, o.cls, {}, None, ip.may_of(o), frozenset(), False)
        if len(ip.may_of(o)) == 1:
            v = next(iter(ip.may_of(o)))
            if v[0] != 'fx':
                return [(st, v)]
        return [(st, ('fresh', 'pop', ip.site(st, node)))]
    if name == 'remove' and len(args) == 1:
        if o.items is not None:
            if args[0] in o.items:
                it = list(o.items)
                it.remove(args[0])
                st.heap[recv[1]] = o.but(items=tuple(it))
                return [(st, NONE)]
            out = []
            for s, r in _member(ip, st, args[0], o.items, node):
                if not r:
                    ip.throw(s, 'builtins.ValueError', (), node)
                else:
                    oo = s.heap[recv[1]]
                    it = [x for x in oo.items if s.decide(mk_eq(x, args[0])) is not True]
                    s.heap[recv[1]] = oo.but(items=tuple(it))
                    out.append((s, NONE))
            return out
        st.heap[recv[1]] = Obj(o.kind, o.cls, {}, None, o.may, o.must - {args[0]}, False)
        return [(st, NONE)]
    if name == 'sort':
        if o.items is not None and len(o.items) > 1:
            done = sort_exact(ip, st, recv, kws, node)
            if done is not None:
                return [(s, NONE) for s, _ in done]
            o = st.heap[recv[1]]
            st.heap[recv[1]] = Obj(o.kind, o.cls, {}, None, frozenset(o.items), frozenset(o.items), True)
        return [(st, NONE)]
    if name == 'reverse':
        if o.items is not None:
            st.heap[recv[1]] = o.but(items=tuple(reversed(o.items)))
        return [(st, NONE)]
    if name == 'clear':
        st.heap[recv[1]] = Obj(o.kind, o.cls, {}, ())
        return [(st, NONE)]
    if name in ('copy', '__copy__'):
        return [(st, ip.alloc(st, node, o.but(), 'copy'))]
    if name == '__len__':
        return call_builtin(ip, st, 'builtins.len', [recv], {}, node)
    if name == '__iter__':
        return call_builtin(ip, st, 'builtins.iter', [recv], {}, node)
    if name == '__contains__' and args:
        return compare_in(ip, st, args[0], recv, False, node)
    if name == '__getitem__' and args:
        return get_item(ip, st, recv, args[0], node)
    if name in ('index', 'count'):
        if o.items is not None and name == 'index' and args and args[0] in o.items:
            return [(st, C(o.items.index(args[0])))]
        if name == 'count' and o.items is not None and all(x[0] == 'c' for x in o.items) and args[0][0] == 'c':
            return [(st, C(sum(1 for x in o.items if x[2] == args[0][2])))]
        if name == 'count' and args:
            return list_count(ip, st, o, args[0], node)
        return [(st, ('int', 0))]
    if name == '_asdict' and o.kind == 'nt':
        return [(st, ip.alloc(st, node, Obj('dict', items=tuple((C(k), v, True) for k, v in o.attrs.items())), 'dict'))]
    if name == '_replace' and o.kind == 'nt':
        a = dict(o.attrs)
        a.update(kws)
        return [(st, ip.alloc(st, node, Obj('nt', None, a, tuple(a[k] for k in list(o.attrs)[:len(o.items)])), 'nt'))]
    if name == 'geturl' and o.kind == 'nt' and all(x[0] == 'c' and isinstance(x[2], str) for x in o.items) and len(o.items) in (5, 6):
        import urllib.parse
        return [(st, C((urllib.parse.urlunsplit if len(o.items) == 5 else urllib.parse.urlunparse)([x[2] for x in o.items])))]
    return None


def list_count(ip, st, o, v, node):
    """Number of items equal to v."""
    def same(x):
        if x == v:
            return True
        f = x[1] if x[0] == 'fx' else x
        if f == v and x[0] == 'c':
            return True
        if x[0] == 'fx':
            # one item for each element with these facts
            for a, val in x[2]:
                if a == mk_eq(f, v):
                    return val
            return None
        return st.decide(mk_eq(x, v))
    if o.items is not None:
        n, open_ = 0, []
        for x in o.items:
            d = same(x)
            if d is True:
                n += 1
            elif d is None:
                open_.append(x)
        if len(open_) > 4:
            return [(st, ('int', min(n, 2)))]
        cur = [(st, n)]
        for x in open_:
            nxt = []
            for s, k in cur:
                for s2, r in ip.compare(s, ast.Eq(), x, v, node):
                    t, f = ip.truth(s2, r, node)
                    nxt += [(y, k + 1) for y in t] + [(y, k) for y in f]
            cur = nxt
        return [(s, C(k)) for s, k in cur]
    if all(same(x) is False for x in o.may):
        return [(st, C(0))]
    if any(same(x) is True for x in o.must):
        return [(st, ('int', 1))]
    z = st.copy()
    st.lossy('number of equal items')
    z.lossy('number of equal items')
    return [(st, ('int', 1)), (z, C(0))]


def set_method(ip, st, recv, o, name, args, kws, node):
    if name == 'add' and args:
        v = args[0]
        if o.items is not None and v not in o.items and any(x[0] != 'c' or v[0] != 'c' for x in o.items):
            pass
        list_add(ip, st, recv, v)
        return [(st, NONE)]
    if name in ('discard', 'remove') and args:
        if o.items is not None:
            st.heap[recv[1]] = o.but(items=tuple(x for x in o.items if x != args[0]))
        else:
            st.heap[recv[1]] = Obj('set', o.cls, {}, None, o.may, o.must - {args[0]}, False)
        return [(st, NONE)]
    if name == 'update' and args:
        out = [(st, NONE)]
        for a in args:
            nxt = []
            for s, _ in out:
                nxt += extend(ip, s, recv, a, node)
            out = nxt
        return out
    if name == 'union':
        r = ip.alloc(st, node, o.but(), 'union')
        out = [(st, r)]
        for a in args:
            for s, _ in extend(ip, st, r, a, node):
                out = [(s, r)]
        return out
    if name in ('intersection', 'difference') and len(args) == 1:
        return set_filter(ip, st, recv, args[0], name == 'intersection', node)
    if name == 'clear':
        st.heap[recv[1]] = Obj('set', o.cls, {}, ())
        return [(st, NONE)]
    if name == 'copy':
        return [(st, ip.alloc(st, node, o.but(), 'copy'))]
    if name == 'pop':
        return list_method(ip, st, recv, o, 'pop', [], {}, node)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return [(st.copy(), TRUE), (st, FALSE)]
    if name in ('__contains__',):
        return compare_in(ip, st, args[0], recv, False, node)
    return None


def dict_method(ip, st, recv, o, name, args, kws, node):
    if name == 'get' and args:
        return dict_get(ip, st, recv, args[0], node, args[1] if len(args) > 1 else kws.get('default', NONE))
    if name in ('__getitem__',):
        return dict_get(ip, st, recv, args[0], node)
    if name == '__setitem__' and len(args) == 2:
        dict_set(ip, st, recv, args[0], args[1])
        return [(st, NONE)]
    if name == '__delitem__' and args:
        return [(s, NONE) for s, _ in dict_pop(ip, st, recv, args[0], None, node)]
    if name in ('__contains__', 'has_key') and args:
        return dict_has(ip, st, recv, args[0], node)
    if name == 'pop' and args:
        return dict_pop(ip, st, recv, args[0], args[1] if len(args) > 1 else None, node)
    if name == 'setdefault' and args:
        out = []
        for s, j in _lookup(ip, st, recv, args[0], node):
            if j is None:
                dflt = args[1] if len(args) > 1 else NONE
                dict_set(ip, s, recv, args[0], dflt)
                out.append((s, dflt))
            elif j == 'may':
                out.append((s, _may_value(ip, s, recv, args[0], node)))
            else:
                out.append((s, s.heap[recv[1]].items[j][1]))
        return out
    if name == 'update':
        for a in args:
            dict_update(ip, st, recv, a)
        for k, v in kws.items():
            if k != '**':
                dict_set(ip, st, recv, C(k), v)
            else:
                dict_update(ip, st, recv, v)
        return [(st, NONE)]
    if name in ('items', 'keys', 'values', 'iteritems', 'iterkeys', 'itervalues'):
        return [(st, dict_list(ip, st, recv, name.replace('iter', ''), node))]
    if name in ('__iter__',):
        return [(st, dict_list(ip, st, recv, 'keys', node))]
    if name == 'clear':
        st.heap[recv[1]] = o.but(items=(), may=frozenset())
        return [(st, NONE)]
    if name in ('copy', '__copy__'):
        return [(st, ip.alloc(st, node, o.but(), 'copy'))]
    if name == '__len__':
        return call_builtin(ip, st, 'builtins.len', [recv], {}, node)
    if name == 'move_to_end':
        return [(st, NONE)]
    if name == 'popitem':
        return [(st, ('tup', (('fresh', 'popk', ip.site(st, node)), ('fresh', 'popv', ip.site(st, node)))))]
    return None


def file_method(ip, st, recv, o, name, args, kws, node):
    if name in ('close', '__exit__'):
        st.heap[recv[1]] = o.setattr('open', FALSE)
        return [(st, NONE)]
    if name == '__enter__':
        return [(st, recv)]
    if name in ('read', 'readline', 'readlines'):
        t = ('fresh', 'file.' + name, ip.site(st, node))
        ip.refresh(st, t)
        return [(st, t)]
    if name in ('write', 'writelines', 'flush', 'seek', 'truncate'):
        return [(st, NONE if name != 'write' else ('int', 0))]
    return [(st, ('meth', recv, name, tuple(args), ()))]


def ext_method(ip, st, recv, o, name, args, kws, node):
    if name == '__enter__':
        return [(st, recv)]
    if o.cls == 'argparse.ArgumentParser' or o.cls == 'optparse.OptionParser':
        return None
    if name == 'close':
        st.heap[recv[1]] = o.setattr('$closed', TRUE)
        r = ip.generic_ext(st, '%s.close' % o.cls, recv, args, kws, node)
        return r
    label = '%s.%s' % (o.cls, name)
    if ip.any_hook is not None:
        r = ip.any_hook(ip, st, label, recv, args, kws, node)
        if r is not None:
            return r
    t = ('fresh', label, ip.site(st, node) + tuple(args[:2]))
    ip.refresh(st, t)
    return [(st, t)]


# ---------------------------------------------------------------------- built-in functions

def collect(ip, st, src, kind, node):
    """list(src) / set(src) / tuple(src) of an iterable: [(st, ref)]."""
    acc = ip.new_list(st, node, (), kind, 'collect' + kind)
    hold = '$l%d_%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))
    st.env[hold] = acc

    def body(s, v):
        list_add(ip, s, s.env[hold], v)
        return [s]
    out = []
    for s in ip.for_each(st, src, node, body, None):
        out.append((s, s.env.pop(hold)))
    return out


def first_of(ip, st, src, node):
    """(first elements [(st, v)], states with no element)."""
    hits = []

    def body(s, v):
        hits.append((s, v))
        return []
    ends = ip.for_each(st, src, node, body, None)
    return hits, ends


def materialize(ip, st, it, node):
    """Run a generator to its end, making it an iterator of the list of its values; None if that is not possible."""
    saved, ip.raises = ip.raises, []
    trial = st.copy()
    trial.env['$next'] = it
    res = collect(ip, trial, it, 'list', node)
    mine, ip.raises = ip.raises, saved
    if not res or mine or any(ip.exact_items(s, r) is None for s, r in res):
        return None
    out = []
    for s, r in res:
        g = s.env.pop('$next')
        s.heap[g[1]] = Obj('iter', None, {'src': r, 'pos': C(0)}, ())
        out.append((s, g))
    return out


def next_of(ip, st, it, default, node):
    o = ip.obj(st, it)
    out = []
    if o is not None and o.kind == 'iter':
        ex = ip.exact_items(st, o.attrs['src'])
        if ex is not None:
            pos = o.attrs['pos'][2]
            if pos < len(ex):
                st.heap[it[1]] = o.setattr('pos', C(pos + 1))
                return [(st, ex[pos])]
            if default is not None:
                return [(st, default)]
            ip.throw(st, 'builtins.StopIteration', (), node)
            return []
        src = o.attrs['src']
        may, must, ne = ip.summary_of(st, src)
        visited = o.attrs.get('wv', ('tup', ()))[1]
        left = [m for m in must if m not in visited]
        if o.attrs.get('done') == TRUE:
            left, may = [], frozenset()
        if not left:
            e = st.copy()
            e.heap[it[1]] = o.setattr('done', TRUE)
            if default is not None:
                out.append((e, default))
            else:
                ip.throw(e, 'builtins.StopIteration', (), node)
        for m in sorted(may, key=okey):
            if m in must and m in visited:
                continue
            x = st.copy()
            if m in must:
                x.heap[it[1]] = o.setattr('wv', ('tup', visited + (m,)))
                out.append((x, m))
            else:
                t = ('it',) + ip.loop_token(st, node)
                # the element fetched earlier at this site is another one
                x.rename({t: ('old',) + t[1:]}, keep_facts=False)
                x.facts = {a: v for a, v in x.facts.items() if not mentions(a, t)}
                out.append((x, ip.instantiate_item(x, m, t)))
        return out
    if o is not None and o.kind in ('gen', 'map'):
        m = materialize(ip, st, it, node)
        if m is not None:
            for s, g in m:
                out += next_of(ip, s, g, default, node)
            return out
    hits, ends = first_of(ip, st, it, node)
    out += hits
    for s in ends:
        if default is not None:
            out.append((s, default))
        else:
            ip.throw(s, 'builtins.StopIteration', (), node)
    return out


def length(ip, st, v, node):
    o = ip.obj(st, v)
    if v[0] == 'c':
        try:
            return [(st, C(len(v[2])))]
        except TypeError:
            ip.throw(st, 'builtins.TypeError', (), node)
            return []
    if o is not None and o.kind == 'inst' and o.cls:
        ci = ip.prog.classes.get(o.cls)
        m = ci.find('__len__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [], {}, st, node)
        if o.attrs.get('$open') or o.may:
            return [(st, ('len', v))]
        return [(st, C(len(o.items)))]
    ex = ip.exact_items(st, v)
    if ex is not None:
        return [(st, C(len(ex)))]
    if o is not None and o.kind == 'dict':
        n = sum(1 for x in o.items if x[2])
        return [(st, ('int', min(n, 2)))]
    if o is not None and o.kind in ('list', 'set', 'deque'):
        if o.ne:
            return [(st, ('int', 1))]
        src = o.attrs.get('$src')
        if src is not None:
            return [(st, ('len', src))]
        a = st.copy()
        a.heap[v[1]] = o.but(ne=True)
        st.heap[v[1]] = Obj(o.kind, o.cls, {}, ())
        return [(a, ('int', 1)), (st, C(0))]
    ci = ip.pclass(st, v)
    if ci is not None:
        m = ci.find('__len__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [], {}, st, node)
    b = v
    while b[0] == 'call' and b[1] in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed') and b[2]:
        b = b[2][0]
    return [(st, ('len', b))]


_BT = {'str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'bytes', 'NoneType'}


def isinstance_(ip, st, v, cls, node):
    """True/False/None (unknown)."""
    ex = ip.exact_items(st, cls)
    if ex is not None:
        r = False
        for c in ex:
            x = isinstance_(ip, st, v, c, node)
            if x is True:
                return True
            if x is None:
                r = None
        return r
    if cls[0] == 'cls':
        want = ip.prog.classes[cls[1]]
        if v[0] == 'exc':
            return exc_is(ip.prog, v[1], cls[1]) if v[3] else None
        t = ip.typ(st, v)
        if t is None:
            return None
        ci = ip.prog.classes.get(t)
        if ci is None:
            return False
        return ci.is_subclass(want)
    if cls[0] == 'ext':
        n = cls[1]
        if v[0] == 'exc':
            return exc_is(ip.prog, v[1], n)
        t = ip.typ(st, v)
        if v == NONE:
            return n in ('builtins.object',)
        if t is None:
            if st.decide(('isnone', v)) is True:
                return False
            return None
        if n == 'builtins.object':
            return True
        if t in ip.prog.classes:
            if n in ip.prog.classes[t].ext_bases():
                return True
            if n.endswith('.Iterable'):
                return ip.prog.classes[t].find('__iter__') is not None or any(
                    b in ('builtins.dict', 'builtins.list', 'collections.OrderedDict') for b in ip.prog.classes[t].ext_bases())
            if n.endswith('.Mapping'):
                return any(b in ('builtins.dict', 'collections.OrderedDict') for b in ip.prog.classes[t].ext_bases())
            return False
        if n.startswith('builtins.'):
            n = n[9:]
            if t == n or (t == 'bool' and n == 'int'):
                return True
            if t in _BT and n in _BT:
                return False
            if t in ('gen', 'file', 'iter'):
                return False
            if n in ('basestring', 'unicode'):
                return t == 'str'
            return None if t not in _BT else False
        if n.endswith('.Iterable'):
            return t in ('str', 'list', 'dict', 'tuple', 'set', 'gen', 'iter', 'file', 'nt', 'map', 'bytes')
        if n.endswith(('.Mapping', '.MutableMapping')):
            return t == 'dict'
        if n.endswith(('.Sequence',)):
            return t in ('str', 'list', 'tuple', 'bytes')
        if t in _BT:
            return False
        if t == n:
            return True
        if '.' in t and t not in ip.prog.classes and n != t:
            return None
    return None


def call_builtin(ip, st, name, args, kws, node):
    n = name
    if n.startswith('builtins.'):
        f = _BI.get(n[9:])
        if f is not None:
            return f(ip, st, args, kws, node)
        if is_exception(n):
            return [(st, ('exc', canon_exc(n), tuple(args), True))]
        return None
    f = _EXT.get(n)
    if f is not None:
        return f(ip, st, args, kws, node)
    return None


def _b_len(ip, st, args, kws, node):
    if len(args) != 1:
        return None
    return length(ip, st, args[0], node)


def _b_isinstance(ip, st, args, kws, node):
    if len(args) != 2:
        return None
    v, c = args
    r = isinstance_(ip, st, v, c, node)
    if r is not None:
        return [(st, C(r))]
    nm = []
    ex = ip.exact_items(st, c)
    for x in (ex if ex is not None else [c]):
        nm.append(x[1] if x[0] in ('cls', 'ext') else okey(x))
    # several alternatives: any of them
    cur = [st]
    out = []
    for y in sorted(nm):
        nxt = []
        for s in cur:
            one = isinstance_(ip, s, v, next(x for x in (ex if ex is not None else [c]) if (x[1] if x[0] in ('cls', 'ext') else okey(x)) == y), node)
            if one is False:
                nxt.append(s)
                continue
            t, f = ip.truth(s, ('pred', ('isinst', v, y), False), node)
            out += [(z, TRUE) for z in t]
            nxt += f
        cur = nxt
    if len(nm) == 1:
        pass
    return out + [(s, FALSE) for s in cur]


BASES = {'builtins.object': object, 'builtins.dict': dict, 'builtins.list': list, 'builtins.set': set, 'collections.OrderedDict': dict,
         'builtins.Exception': Exception}
PLAIN = {'list': [], 'dict': {}, 'set': set(), 'tuple': (), 'iter': iter([]), 'gen': (x for x in ()), 'view': {}.keys()}


def _b_hasattr(ip, st, args, kws, node):
    v, a = args[0], args[1]
    if a[0] != 'c':
        return None
    o = ip.obj(st, v)
    if o is not None and o.kind == 'inst' and o.cls:
        ci = ip.prog.classes.get(o.cls)
        if a[2] in o.attrs or ci.find(a[2]) is not None:
            return [(st, TRUE)]
        if not o.attrs.get('$open') and all(b in BASES for b in ci.ext_bases()) and v[1][-1] == 'new':
            return [(st, C(any(hasattr(BASES[b], a[2]) for b in ci.ext_bases())))]
    if o is not None and o.kind in PLAIN:
        return [(st, C(hasattr(PLAIN[o.kind], a[2])))]
    if v[0] == 'tup':
        return [(st, C(hasattr((), a[2])))]
    if v[0] == 'c':
        return [(st, C(hasattr(v[2], a[2])))]
    ci = ip.pclass(st, v)
    if ci is not None and ci.find(a[2]) is not None:
        return [(st, TRUE)]
    if v[0] == 'mod':
        m = ip.prog.modules[v[1]]
        return [(st, C(a[2] in m.names))]
    return [(st, ('pred', ('isinst', v, 'has:' + a[2]), False))]


def _b_getattr(ip, st, args, kws, node):
    v, a = args[0], args[1]
    if a[0] != 'c':
        ca = st.constval(a)
        if ca is None:
            return [(st, ('attr', v, okey(a)))] if v[0] != 'ref' else [(st, ('fresh', 'getattr', ip.site(st, node)))]
        a = ca
    if len(args) < 3:
        return ip.get_attr(st, v, a[2], node)
    o = ip.obj(st, v)
    known = _b_hasattr(ip, st, (v, a), {}, node)
    if known and known[0][1] == FALSE:
        return [(st, args[2])]
    if v[0] == 'mod' and a[2] not in ip.prog.modules[v[1]].names:
        return [(st, args[2])]
    if v[0] == 'c':
        return [(st, args[2])] if not hasattr(v[2], a[2]) else ip.get_attr(st, v, a[2], node)
    if o is not None and o.kind == 'inst' and o.cls:
        ci = ip.prog.classes.get(o.cls)
        if a[2] not in o.attrs and ci.find(a[2]) is None and not o.attrs.get('$open'):
            return [(st, args[2])]
    saved, ip.raises = ip.raises, []
    res = ip.get_attr(st, v, a[2], node)
    mine, ip.raises = ip.raises, saved
    for s, e in mine:
        if e[1] == 'builtins.AttributeError':
            res.append((s, args[2]))
        else:
            ip.raises.append((s, e))
    return res


def _b_setattr(ip, st, args, kws, node):
    v, a, val = args
    ca = st.constval(a)
    if ca is None:
        if ip.store_hook is not None:
            ip.store_hook(ip, st, v, ('dyn', a), val, node)
        o = ip.obj(st, v)
        if o is not None:
            st.heap[v[1]] = o.setattr('$any', ('tup', (a, val)))
        return [(st, NONE)]
    return [(s, NONE) for s in ip.set_attr(st, v, ca[2], val, node)]


def _b_delattr(ip, st, args, kws, node):
    o = ip.obj(st, args[0])
    if o is not None and args[1][0] == 'c':
        st.heap[args[0][1]] = o.delattr(args[1][2])
    return [(st, NONE)]


def _b_list(ip, st, args, kws, node, kind='list'):
    if not args:
        return [(st, ip.new_list(st, node, (), kind))]
    v = args[0]
    ex = ip.exact_items(st, v)
    if ex is not None:
        return [(st, _mk_set(ip, st, node, ex) if kind == 'set' else ip.new_list(st, node, ex, kind))]
    o = ip.obj(st, v)
    if o is not None:
        if o.kind in ('list', 'set', 'deque') and o.items is None:
            return [(st, ip.alloc(st, node, Obj(kind, None, {}, None, o.may, o.must, o.ne), 'copy' + kind))]
        return collect(ip, st, v, kind, node)
    if v == NONE:
        ip.throw(st, 'builtins.TypeError', (), node)
        return []
    if v[0] == 'c':
        try:
            return [(st, ip.new_list(st, node, [C(x) for x in v[2]], kind))]
        except TypeError:
            ip.throw(st, 'builtins.TypeError', (), node)
            return []
    if zip_like(ip, st, v) is not None or (ip.pclass(st, v) is not None and v not in ip.witness):
        return collect(ip, st, v, kind, node)
    b = base_src(v)
    m, u, ne = ip.summary_of(st, v)
    if kind == 'tuple':
        return [(st, ('call', 'builtins.tuple', (v,), ()))]
    ref = ip.alloc(st, node, Obj(kind, None, {'$src': v}, None, m, u, ne), 'copy' + kind)
    return [(st, ref)]


def _b_tuple(ip, st, args, kws, node):
    if not args:
        return [(st, ('tup', ()))]
    ex = ip.exact_items(st, args[0])
    if ex is not None:
        return [(st, ('tup', tuple(ex)))]
    o = ip.obj(st, args[0])
    if o is not None:
        return [(s, _tupled(s, r)) for s, r in _b_list(ip, st, args, kws, node)]
    return [(st, ('call', 'builtins.tuple', (args[0],), ()))]


def _tupled(st, r):
    o = st.heap.get(r[1]) if r[0] == 'ref' else None
    if o is not None and o.items is not None:
        return ('tup', tuple(o.items))
    return r


def _b_set(ip, st, args, kws, node):
    return _b_list(ip, st, args, kws, node, 'set')


def _ordered(ip, st, a, b, node):
    """Is a < b?  True, False or None; tuples and lists of terms are compared item by item."""
    xa, xb = (ip.exact_items(st, x) if x[0] in ('tup', 'ref') or x[0] == 'c' and isinstance(x[2], tuple) else None for x in (a, b))
    if xa is not None and xb is not None:
        for x, y in zip(xa, xb):
            e = ip.compare(st.copy(), ast.Eq(), x, y, node)
            if len(e) != 1 or e[0][1][0] != 'c':
                return None
            if e[0][1][2]:
                continue
            return _ordered(ip, st, x, y, node)
        return len(xa) < len(xb)
    if a[0] == 'c' and b[0] == 'c':
        try:
            return bool(a[2] < b[2])
        except TypeError:
            return None
    r = ip.compare(st.copy(), ast.Lt(), a, b, node)
    if len(r) != 1 or r[0][1][0] != 'c':
        return None
    return bool(r[0][1][2])


def sort_exact(ip, st, ref, kws, node):
    """Sort a list of known items in place if their order is decided: [(state, ref)] or None."""
    if any(k not in ('key', 'reverse') for k in kws):
        return None
    rev = kws.get('reverse', FALSE)
    if rev[0] != 'c':
        return None
    o = st.heap[ref[1]]
    key = kws.get('key', NONE)
    n = len(o.items)
    cur = [(st, ref, ())]
    if key != NONE:
        for i in range(n):
            nxt = []
            for s, r, ks in cur:
                s.env['$sort'] = ('tup', (r,) + ks)
                for s2, k in ip.call_value(s, key, [s.heap[r[1]].items[i]], {}, node):
                    h = s2.env.pop('$sort')[1]
                    nxt.append((s2, h[0], h[1:] + (k,)))
            cur = nxt
    else:
        cur = [(st, ref, tuple(o.items))]
    out = []
    for s, r, ks in cur:
        idx = []
        for i in range(n):
            j = len(idx)
            while j > 0:
                lt = _ordered(ip, s, ks[i], ks[idx[j - 1]], node) if not rev[2] else _ordered(ip, s, ks[idx[j - 1]], ks[i], node)
                if lt is None:
                    return None
                if not lt:
                    break
                j -= 1
            idx.insert(j, i)
        o = s.heap[r[1]]
        s.heap[r[1]] = o.but(items=tuple(o.items[i] for i in idx))
        out.append((s, r))
    return out


def _b_sorted(ip, st, args, kws, node):
    if not args:
        return None
    v = args[0]
    out = []
    for s, r in _b_list(ip, st, [v], {}, node):
        o = ip.obj(s, r)
        if o is not None and o.items is not None and len(o.items) > 1:
            done = sort_exact(ip, s, r, kws, node)
            if done is not None:
                out += done
                continue
            o = ip.obj(s, r)
            s.heap[r[1]] = Obj('list', None, {}, None, frozenset(o.items), frozenset(o.items), True)
        elif o is not None and '$src' in o.attrs:
            s.heap[r[1]] = o.setattr('$src', ('call', 'builtins.sorted', (o.attrs['$src'],), ()))
        out.append((s, r))
    return out


def _b_reversed(ip, st, args, kws, node):
    ex = ip.exact_items(st, args[0])
    if ex is not None:
        return [(st, ip.new_list(st, node, tuple(reversed(ex))))]
    o = ip.obj(st, args[0])
    if o is not None:
        return _b_sorted(ip, st, args, {}, node)
    return [(st, ('call', 'builtins.reversed', tuple(args), ()))]


def _b_dict(ip, st, args, kws, node):
    if args:
        o = ip.obj(st, args[0])
        if o is not None and o.kind in ('gen', 'map', 'iter'):
            out = []
            for s, l in collect(ip, st, args[0], 'list', node):
                out += _b_dict(ip, s, [l], kws, node)
            return out
    r = ip.alloc(st, node, Obj('dict', items=()), 'dict')
    for a in args:
        if not_pairs(ip, st, a):
            ip.throw(st, 'builtins.ValueError', (), node)
            return []
        dict_update(ip, st, r, a)
    for k, v in kws.items():
        if k == '**':
            dict_update(ip, st, r, v)
        else:
            dict_set(ip, st, r, C(k), v)
    return [(st, r)]


def _b_str(ip, st, args, kws, node):
    if not args:
        return [(st, C(''))]
    v = args[0]
    c = st.constval(v)
    if c is not None and not isinstance(c[2], bytes):
        return [(st, C(str(c[2])))]
    if ip.typ(st, v) == 'str':
        return [(st, v)]
    ci = ip.pclass(st, v)
    if ci is not None and v[0] != 'exc':
        m = ci.find('__str__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [], {}, st, node)
    return [(st, ('call', 'builtins.str', tuple(args[:1]), ()))]


def _num(conv):
    def f(ip, st, args, kws, node):
        if not args:
            return [(st, C(conv()))]
        v = args[0]
        c = st.constval(v)
        if c is not None and all(a[0] == 'c' for a in args):
            try:
                return [(st, C(conv(c[2], *[a[2] for a in args[1:]])))]
            except (ValueError, TypeError, OverflowError) as e:
                ip.throw(st, 'builtins.' + type(e).__name__, (), node)
                return []
        if v[0] == 'pred':
            t, f = ip.truth(st, v, node)
            return [(s, C(conv(True))) for s in t] + [(s, C(conv(False))) for s in f]
        if conv is int and v[0] in ('len', 'int', 'sum'):
            return [(st, v)]
        if conv is int and v[0] == 'call' and v[1] == 'builtins.int' and len(args) == 1:
            return [(st, v)]
        if conv is float and len(args) == 1:
            if ip.typ(st, v) == 'float':
                return [(st, v)]
            if v[0] == 'call' and v[1] in ('builtins.str', 'builtins.repr') and ip.typ(st, v[2][0]) == 'float':
                return [(st, v[2][0])]
        if conv is int and len(args) == 1:
            if v[0] == 'call' and v[1] == 'builtins.str' and ip.typ(st, v[2][0]) == 'int':
                return [(st, v[2][0])]
            if ip.strict and ip.typ(st, v) == 'int':
                return [(st, v)]
        if ip.strict and ip.typ(st, v) == 'str' and len(args) == 1:
            atom = ('numeric', conv.__name__, v)
            known = st.decide(atom)
            if known is not None:
                good, bad = ([st], []) if known else ([], [st])
            else:
                good, bad = ip.fork(st, atom, False, node)
            for s in bad:
                ip.throw(s, 'builtins.ValueError', (C('not a number'),), node)
            return [(s, ('call', 'builtins.' + conv.__name__, (v,), ())) for s in good]
        return [(st, ('call', 'builtins.' + conv.__name__, tuple(args), ()))]
    return f


def _b_bool(ip, st, args, kws, node):
    if not args:
        return [(st, FALSE)]
    if args[0][0] == 'pred':
        return [(st, args[0])]
    t, f = ip.truth(st, args[0], node)
    return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]


def _b_iter(ip, st, args, kws, node):
    v = args[0]
    if len(args) == 2:
        if ip.strict and 'rsastub.iter2' in ip.prog.functions:
            return ip.call_function(ip.prog.functions['rsastub.iter2'], None, list(args), {}, st, node)
        return [(st, ('fresh', 'iter', ip.site(st, node)))]
    o = ip.obj(st, v)
    if o is not None:
        if o.kind in ('gen', 'iter', 'map'):
            return [(st, v)]
        if o.kind == 'inst' and o.cls:
            ci = ip.prog.classes.get(o.cls)
            m = ci.find('__iter__')
            if m is not None and m[0] == 'method':
                return ip.call_function(m[1], v, [], {}, st, node)
            if any(b in ('builtins.dict', 'collections.OrderedDict') for b in ci.ext_bases()):
                v = dict_list(ip, st, v, 'keys', node)
        elif o.kind == 'dict':
            v = dict_list(ip, st, v, 'keys', node)
    ci = ip.pclass(st, v) if o is None else None
    if ci is not None and v not in ip.witness and v not in ip.exact_src:
        m = ci.find('__iter__')
        if m is not None and m[0] == 'method':
            return ip.call_function(m[1], v, [], {}, st, node)
    return [(st, ip.alloc(st, node, Obj('iter', None, {'src': v, 'pos': C(0)}, ()), 'iter'))]


def _b_next(ip, st, args, kws, node):
    v = args[0]
    d = args[1] if len(args) > 1 else None
    ci = ip.pclass(st, v)
    if ci is not None:
        m = ci.find('__next__')
        if m is not None and m[0] == 'method':
            saved, ip.raises = ip.raises, []
            res = ip.call_function(m[1], v, [], {}, st, node)
            mine, ip.raises = ip.raises, saved
            for s, e in mine:
                if d is not None and e[1] == 'builtins.StopIteration':
                    res.append((s, d))
                else:
                    ip.raises.append((s, e))
            return res
    return next_of(ip, st, v, d, node)


def _b_any(ip, st, args, kws, node, all_=False):
    hits = []

    def body(s, v):
        t, f = ip.truth(s, v, node)
        if all_:
            t, f = f, t
        hits.extend(t)
        return f
    ends = ip.for_each(st, args[0], node, body, None)
    return [(s, C(not all_)) for s in ip.merge(hits)] + [(s, C(all_)) for s in ends]


def _b_all(ip, st, args, kws, node):
    return _b_any(ip, st, args, kws, node, True)


def _b_sum(ip, st, args, kws, node):
    hold = '$u%d_%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))
    st.env[hold] = args[1] if len(args) > 1 else kws.get('start', C(0))
    outer = ip.symloop

    def body(s, v):
        return [_put(s2, hold, r) for s2, r in binop(ip, s, ast.Add(), s.env[hold], v, node, counter=ip.symloop > outer)]
    out = []
    for s in ip.for_each(st, args[0], node, body, None):
        out.append((s, s.env.pop(hold)))
    return out


def _put(s, k, v):
    s.env[k] = v
    return s


def _minmax(less):
    def f(ip, st, args, kws, node):
        key = kws.get('key')
        if key is not None:
            return None
        hold = '$u%d_%d_%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(st.stack))
        undef = ('fresh', 'undef', 'max')

        def body(s, v):
            cur = s.env[hold]
            if cur == undef:
                return [_put(s, hold, v)]
            out = []
            op = ast.Gt() if not less else ast.Lt()
            for s2, r in ip.compare(s, op, v, cur, node):
                t, g = ip.truth(s2, r, node)
                out += [_put(x, hold, v) for x in t] + g
            return out
        st.env[hold] = undef
        if len(args) > 1:
            cur = [st]
            for a in args:
                nxt = []
                for s in cur:
                    nxt += body(s, a)
                cur = nxt
        else:
            cur = ip.for_each(st, args[0], node, body, None)
        out = []
        for s in cur:
            v = s.env.pop(hold)
            if v == undef:
                if 'default' in kws:
                    out.append((s, kws['default']))
                else:
                    ip.throw(s, 'builtins.ValueError', (), node)
            else:
                out.append((s, v))
        return out
    return f


def _b_map(ip, st, args, kws, node, kind='map'):
    if len(args) != 2:
        return [(st, ('fresh', 'map', ip.site(st, node)))]
    return [(st, ip.alloc(st, node, Obj('map', kind, {'f': args[0], 'src': args[1]}, ()), kind))]


def _b_filter(ip, st, args, kws, node):
    return _b_map(ip, st, args, kws, node, 'filter')


def _b_enumerate(ip, st, args, kws, node):
    a = list(args)
    if a and a[0][0] == 'ref':
        ex = ip.exact_items(st, a[0])
        start = a[1] if len(a) > 1 else kws.get('start', C(0))
        if ex is not None and start[0] == 'c':
            return [(st, ip.new_list(st, node, [('tup', (C(start[2] + i), x)) for i, x in enumerate(ex)]))]
    return [(st, ('call', 'builtins.enumerate', tuple(a), tuple(sorted(kws.items()))))]


def _b_zip(ip, st, args, kws, node):
    exs = [ip.exact_items(st, a) for a in args]
    if all(e is not None for e in exs):
        return [(st, ip.new_list(st, node, [('tup', t) for t in zip(*exs)]))]
    return [(st, ('call', 'builtins.zip', tuple(args), ()))]


def _b_range(ip, st, args, kws, node):
    return [(st, ('call', 'builtins.range', tuple(st.constval(a) or a for a in args), ()))]


def _b_open(ip, st, args, kws, node):
    mode = args[1] if len(args) > 1 else kws.get('mode', C('r'))
    f = Obj('file', 'file', {'path': args[0] if args else kws.get('file', NONE), 'mode': mode, 'open': TRUE})
    return [(st, ip.alloc(st, node, f, 'file'))]


def _b_type(ip, st, args, kws, node):
    if len(args) != 1:
        return None
    v = args[0]
    t = ip.typ(st, v)
    if t is None:
        return [(st, ('call', 'builtins.type', (v,), ()))]
    if t in ip.prog.classes:
        return [(st, ('cls', t))]
    return [(st, ('ext', t if '.' in t else 'builtins.' + t))]


def _b_abs(ip, st, args, kws, node):
    v = args[0]
    if v[0] == 'c' and isinstance(v[2], (int, float)):
        return [(st, C(abs(v[2])))]
    return [(st, ('call', 'builtins.abs', (v,), ()))]


def _b_print(ip, st, args, kws, node):
    if 'file' in kws:
        return None
    return ip.generic_ext(st, 'builtins.print', None, args, {}, node) and [(st, NONE)]


def _b_callable(ip, st, args, kws, node):
    v = args[0]
    if v[0] in ('fn', 'cls', 'bm'):
        return [(st, TRUE)]
    if v[0] == 'c':
        return [(st, FALSE)]
    return None


def _b_objset(ip, st, args, kws, node):
    if len(args) == 3 and args[1][0] == 'c':
        return [(s, NONE) for s in ip.set_attr(st, args[0], args[1][2], args[2], node, raw=True)]
    if len(args) == 3:
        o = ip.obj(st, args[0])
        if o is not None:
            st.heap[args[0][1]] = o.setattr('$any', ('tup', (args[1], args[2])))
        return [(st, NONE)]
    return None


def _b_objinit(ip, st, args, kws, node):
    return [(st, NONE)]


def _b_super(ip, st, args, kws, node):
    if len(args) == 2 and args[0][0] == 'cls':
        return [(st, ('super', args[0][1], args[1]))]
    return None


def _b_repr(ip, st, args, kws, node):
    if args and args[0][0] == 'c':
        return [(st, C(repr(args[0][2])))]
    return [(st, ('call', 'builtins.repr', tuple(args), ()))]


def _b_issubclass(ip, st, args, kws, node):
    if len(args) == 2 and args[0][0] == 'cls' and args[1][0] == 'cls':
        return [(st, C(ip.prog.classes[args[0][1]].is_subclass(ip.prog.classes[args[1][1]])))]
    return None


def _b_vars(ip, st, args, kws, node):
    o = ip.obj(st, args[0]) if args else None
    if o is not None and o.kind == 'inst':
        return [(st, ip.alloc(st, node, Obj('dict', items=tuple((C(k), v, True) for k, v in sorted(o.attrs.items()) if k[0] != '$')), 'dict'))]
    return None


def _b_divmod(ip, st, args, kws, node):
    out = []
    for s, q in binop(ip, st, ast.FloorDiv(), args[0], args[1], node):
        for s2, r in binop(ip, s, ast.Mod(), args[0], args[1], node):
            out.append((s2, ('tup', (q, r))))
    return out


def _b_round(ip, st, args, kws, node):
    if all(a[0] == 'c' for a in args):
        return [(st, C(round(*[a[2] for a in args])))]
    return None


def _b_exit(ip, st, args, kws, node):
    ip.throw(st, 'builtins.SystemExit', tuple(args), node)
    return []


_BI = {
    'len': _b_len, 'isinstance': _b_isinstance, 'hasattr': _b_hasattr, 'getattr': _b_getattr, 'setattr': _b_setattr,
    'delattr': _b_delattr, 'list': _b_list, 'tuple': _b_tuple, 'set': _b_set, 'frozenset': _b_set, 'dict': _b_dict,
    'sorted': _b_sorted, 'reversed': _b_reversed, 'str': _b_str, 'int': _num(int), 'float': _num(float),
    'bool': _b_bool, 'iter': _b_iter, 'next': _b_next, 'any': _b_any, 'all': _b_all, 'sum': _b_sum,
    'max': _minmax(False), 'min': _minmax(True), 'map': _b_map, 'filter': _b_filter, 'enumerate': _b_enumerate,
    'zip': _b_zip, 'range': _b_range, 'open': _b_open, 'type': _b_type, 'abs': _b_abs, 'print': _b_print,
    'callable': _b_callable, 'object.__setattr__': _b_objset, 'object.__init__': _b_objinit, 'super': _b_super,
    'repr': _b_repr, 'issubclass': _b_issubclass, 'vars': _b_vars, 'divmod': _b_divmod, 'round': _b_round,
    'exit': _b_exit, 'quit': _b_exit,
}


def _x_partial(ip, st, args, kws, node):
    a = dict(kws)
    a['$f'] = args[0]
    return [(st, ip.alloc(st, node, Obj('partial', None, a, tuple(args[1:])), 'partial'))]


def _x_ordered(ip, st, args, kws, node):
    return _b_dict(ip, st, args, kws, node)


def _x_defaultdict(ip, st, args, kws, node):
    return _b_dict(ip, st, args[1:], kws, node)


def _x_deque(ip, st, args, kws, node):
    return _b_list(ip, st, args[:1], {}, node, 'deque')


def _x_copy(ip, st, args, kws, node):
    v = args[0]
    o = ip.obj(st, v)
    if o is None:
        if v[0] == 'c':
            return [(st, v)]
        return [(st, ('call', 'copy.copy', (v,), ()))]
    return [(st, ip.alloc(st, node, o.but(), 'copy'))]


def _x_join(ip, st, args, kws, node):
    if args and all(a[0] == 'c' and isinstance(a[2], str) for a in args):
        import posixpath
        return [(st, C(posixpath.join(*[a[2] for a in args])))]
    # an absolute later part drops the earlier ones
    return [(st, ('call', 'os.path.join', tuple(args), ()))]


def _pathfold(fn):
    def f(ip, st, args, kws, node):
        if len(args) == 1 and args[0][0] == 'c' and isinstance(args[0][2], str):
            import posixpath
            r = getattr(posixpath, fn)(args[0][2])
            return [(st, C(r) if isinstance(r, str) else ('tup', tuple(C(x) for x in r)))]
        return None
    return f


CWD = '/cwd'


def _pathcall(fn):
    """Path functions of constants, in a fixed working directory without links."""
    def f(ip, st, args, kws, node):
        import posixpath
        if not ip.strict or kws.get('start') is None and kws:
            return None
        vals = []
        for a in list(args) + list(kws.values()):
            ex = ip.exact_items(st, a) if a[0] in ('ref', 'tup') else None
            if ex is not None and all(x[0] == 'c' and isinstance(x[2], str) for x in ex):
                vals.append([x[2] for x in ex])
            elif a[0] == 'c' and isinstance(a[2], str):
                vals.append(a[2])
            else:
                return None
        full = lambda p: posixpath.normpath(posixpath.join(CWD, p))
        try:
            if fn in ('abspath', 'realpath'):
                r = full(vals[0])
            elif fn == 'relpath':
                if not vals[0]:
                    raise ValueError('no path specified')
                r = posixpath.relpath(full(vals[0]), full(vals[1]) if len(vals) > 1 else CWD)
            else:
                r = getattr(posixpath, fn)(*vals)
        except ValueError as e:
            ip.throw(st, 'builtins.ValueError', (C(str(e)),), node)
            return []
        return [(st, C(r) if not isinstance(r, tuple) else ('tup', tuple(C(x) for x in r)))]
    return f


def _urlcall(fn):
    """URL functions of constants."""
    def f(ip, st, args, kws, node):
        import urllib.parse
        if not ip.strict:
            return None
        vals = []
        for a in list(args) + list(kws.values()):
            ex = ip.exact_items(st, a) if a[0] in ('ref', 'tup') else None
            if ex is not None and all(x[0] == 'c' and isinstance(x[2], str) for x in ex):
                vals.append(tuple(x[2] for x in ex))
            elif a[0] == 'c' and isinstance(a[2], (str, bool)):
                vals.append(a[2])
            else:
                return None
        try:
            r = getattr(urllib.parse, fn)(*vals[:len(args)], **dict(zip(kws, vals[len(args):])))
        except Exception as e:
            if isinstance(e, ValueError):
                ip.throw(st, 'builtins.ValueError', (C(str(e)),), node)
                return []
            return None
        if fn in ('urlsplit', 'urlparse'):
            attrs = dict(zip(URLSPLIT if fn == 'urlsplit' else URLPARTS, [C(x) for x in r]))
            n = tuple(attrs.values())
            attrs['hostname'] = C(r.hostname)
            return [(st, ip.alloc(st, node, Obj('nt', None, attrs, n), 'url'))]
        if fn == 'urldefrag':
            return [(st, ip.alloc(st, node, Obj('nt', None, {'url': C(r[0]), 'fragment': C(r[1])}, (C(r[0]), C(r[1]))), 'url'))]
        return [(st, C(r))]
    return f


def _x_setattr_op(ip, st, args, kws, node):
    return None


def _x_chain(ip, st, args, kws, node):
    exs = [ip.exact_items(st, a) for a in args]
    if all(e is not None for e in exs):
        return [(st, ip.new_list(st, node, [x for e in exs for x in e]))]
    if any(a[0] == 'ref' for a in args):
        may, must, ne = frozenset(), frozenset(), False
        if all(ip.obj(st, a) is None or ip.obj(st, a).kind in ('list', 'set') for a in args):
            for a in args:
                m, u, e = ip.summary_of(st, a)
                may, must, ne = may | m, must | u, ne or e
            return [(st, ip.new_summary(st, node, may, must, ne=ne))]
    return [(st, ('call', 'itertools.chain', tuple(args), ()))]


def _x_exit(ip, st, args, kws, node):
    ip.throw(st, 'builtins.SystemExit', tuple(args), node)
    return []


def _x_islice(ip, st, args, kws, node):
    ex = ip.exact_items(st, args[0])
    if ex is not None and all(a[0] == 'c' for a in args[1:]):
        return [(st, ip.new_list(st, node, tuple(ex)[slice(*[a[2] for a in args[1:]])]))]
    return None


def _x_rounding(fn):
    def f(ip, st, args, kws, node):
        import math
        if len(args) == 1 and args[0][0] == 'c' and isinstance(args[0][2], (int, float)):
            return [(st, C(getattr(math, fn)(args[0][2])))]
        return None
    return f


def _re_args(args):
    """Constants of the arguments of a regular expression function, or None."""
    import re
    out = []
    for a in args:
        if a[0] == 'c' and isinstance(a[2], (str, int)):
            out.append(a[2])
        elif a[0] == 'ext' and isinstance(a[1], str) and a[1].startswith('re.') and isinstance(getattr(re, a[1][3:], None), re.RegexFlag):
            out.append(getattr(re, a[1][3:]))
        else:
            return None
    return out


def _re_result(ip, st, r, term, node):
    if r is None or isinstance(r, (str, int)):
        return [(st, C(r))]
    if isinstance(r, list):
        return [(st, ip.new_list(st, node, [C(x) for x in r]))]
    if isinstance(r, (tuple, dict)):
        return None
    st.learn(('isnone', term), False)
    st.learn(('truth', term), True)
    return [(st, term)]


def _x_re(fn):
    def f(ip, st, args, kws, node):
        import re
        c = _re_args(args)
        if c is None or kws:
            return None
        try:
            r = getattr(re, fn)(*c)
        except re.error as e:
            if not ip.strict:
                return None
            ip.throw(st, 're.error', (C(str(e)),), node)
            return []
        except TypeError:
            return None
        return _re_result(ip, st, r, ('call', 're.' + fn, tuple(args), ()), node)
    return f


def re_method(ip, st, recv, name, args, kws, node):
    """Method of a pattern or match of constants."""
    import re
    if recv[0] == 'call':
        fn, base, a = recv[1][3:], re, recv[2]
    else:
        base, fn, a = None, recv[2], recv[3]
    if base is None:
        if not (recv[1][0] == 'call' and recv[1][1] == 're.compile'):
            return None
        c = _re_args(recv[1][2])
        if c is None:
            return None
        base = re.compile(*c)
    if fn not in ('match', 'search', 'fullmatch', 'compile'):
        return None
    c, d = _re_args(a), _re_args(args)
    if c is None or d is None or kws:
        return None
    try:
        x = getattr(base, fn)(*c)
        m = getattr(x, name)
        if not callable(m):
            return None
        r = m(*d)
    except (re.error, TypeError, AttributeError, IndexError):
        return None
    if isinstance(r, tuple):
        return [(st, ('tup', tuple(C(y) for y in r)))]
    return _re_result(ip, st, r, ('meth', recv, name, tuple(args), ()), node)


_EXT = {
    'math.ceil': _x_rounding('ceil'), 'math.floor': _x_rounding('floor'),
    're.match': _x_re('match'), 're.search': _x_re('search'), 're.fullmatch': _x_re('fullmatch'), 're.sub': _x_re('sub'),
    're.split': _x_re('split'), 're.escape': _x_re('escape'), 're.compile': _x_re('compile'), 're.findall': _x_re('findall'),
    'functools.partial': _x_partial, 'collections.OrderedDict': _x_ordered, 'collections.defaultdict': _x_defaultdict,
    'collections.deque': _x_deque, 'copy.copy': _x_copy, 'copy.deepcopy': _x_copy, 'os.path.join': _x_join,
    'posixpath.join': _x_join, 'itertools.chain': _x_chain, 'sys.exit': _x_exit, 'os._exit': _x_exit,
    'io.open': _b_open, 'codecs.open': _b_open, 'gzip.open': _b_open, 'bz2.open': _b_open, 'os.fdopen': _b_open,
    'os.path.basename': _pathfold('basename'), 'os.path.dirname': _pathfold('dirname'),
    'os.path.splitext': _pathfold('splitext'), 'os.path.normpath': _pathfold('normpath'),
    'itertools.islice': _x_islice,
    'os.path.abspath': _pathcall('abspath'), 'os.path.realpath': _pathcall('realpath'), 'os.path.relpath': _pathcall('relpath'),
    'os.path.commonpath': _pathcall('commonpath'), 'os.path.commonprefix': _pathcall('commonprefix'),
    'os.path.isabs': _pathcall('isabs'), 'os.path.split': _pathcall('split'),
}
_EXT.update(('urllib.parse.' + x, _urlcall(x)) for x in ('urljoin', 'urlsplit', 'urlparse', 'urlunsplit', 'urlunparse', 'urldefrag', 'quote', 'unquote'))
