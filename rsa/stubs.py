"""Specification stubs: what the parts outside the library do, written in Python and
analysed by the interpreter together with the library's source (never run).

LOG records what happens to files, in order.
"""
from .model import ModuleInfo
from .state import C, mk_eq

SOURCE = r'''
LOG = []
FILES = {}
PAGES = {}
FAIL = []
FULL = []
NOLENGTH = []
SIZES = {}
DIRS = []
LINKS = []
NOREAD = []


class ParseError(SyntaxError):
    pass


class Element(object):
    def __init__(self, tag, attrib={}, **extra):
        self.tag = tag
        self.attrib = {}
        for k in attrib:
            self.attrib[k] = attrib[k]
        for k in extra:
            self.attrib[k] = extra[k]
        self.text = None
        self.tail = None
        self.kids = []

    def append(self, e):
        self.kids.append(e)

    def extend(self, es):
        for e in es:
            self.kids.append(e)

    def insert(self, i, e):
        self.kids.insert(i, e)

    def remove(self, e):
        self.kids.remove(e)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, i):
        return self.kids[i]

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def findall(self, path, namespaces=None):
        path = expand(path, namespaces)
        return [e for e in self.kids if e.tag == path]

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        path = expand(path, namespaces)
        for e in self.kids:
            if e.tag == path:
                return e
        return None

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        if e is None:
            return default
        if e.text is None:
            return ''
        return e.text

    def iter(self, tag=None):
        out = []
        if tag is None or tag == '*' or self.tag == tag:
            out.append(self)
        for e in self.kids:
            for x in e.iter(tag):
                out.append(x)
        return iter(out)

    def clear(self):
        self.attrib = {}
        self.kids = []
        self.text = None
        self.tail = None


def expand(path, namespaces):
    if namespaces is not None and path[0:1] != '{' and ':' in path:
        prefix, local = path.split(':', 1)
        return '{' + namespaces[prefix] + '}' + local
    return path


def SubElement(parent, tag, attrib={}, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


class Markup(object):
    def __init__(self, root, declaration, text):
        self.root = root
        self.declaration = declaration
        self.text = text


class ElementTree(object):
    def __init__(self, element=None, file=None):
        self.root = element

    def getroot(self):
        return self.root

    def write(self, file_or_filename, encoding=None, xml_declaration=None, default_namespace=None, method=None, short_empty_elements=True):
        checked(self.root)
        text = encoding == 'unicode'
        if isinstance(file_or_filename, str):
            f = open_file(file_or_filename, 'w' if text else 'wb')
            f.write(Markup(self.root, xml_declaration, text))
            f.close()
        else:
            file_or_filename.write(Markup(self.root, xml_declaration, text))

    def find(self, path, namespaces=None):
        return self.root.find(path, namespaces)

    def findall(self, path, namespaces=None):
        return self.root.findall(path, namespaces)

    def iter(self, tag=None):
        return self.root.iter(tag)


def checked(e):
    """The serializer only takes strings."""
    for k in e.attrib:
        if not isinstance(e.attrib[k], str):
            raise TypeError('cannot serialize an attribute')
    if e.text is not None and not isinstance(e.text, str):
        raise TypeError('cannot serialize a text')
    for x in e.kids:
        checked(x)


def tostring(element, encoding=None, method=None, xml_declaration=None, default_namespace=None, short_empty_elements=True):
    checked(element)
    return Markup(element, xml_declaration, encoding == 'unicode')


def qname(tag, ns, attribute):
    if tag[0:1] == '{':
        return tag
    if ':' in tag:
        prefix, local = tag.split(':', 1)
        if 'xmlns:' + prefix not in ns:
            raise ParseError('unbound prefix')
        return '{' + ns['xmlns:' + prefix] + '}' + local
    if 'xmlns' in ns and not attribute:
        return '{' + ns['xmlns'] + '}' + tag
    return tag


def reparse(e, ns):
    """What a parser makes of the serialized element."""
    ns = dict(ns)
    for k in e.attrib:
        if k == 'xmlns' or k[0:6] == 'xmlns:':
            ns[k] = e.attrib[k]
    out = Element(qname(e.tag, ns, False))
    for k in e.attrib:
        if not (k == 'xmlns' or k[0:6] == 'xmlns:'):
            out.attrib[qname(k, ns, True)] = e.attrib[k]
    out.text = e.text if e.text != '' else None
    out.tail = e.tail
    for x in e.kids:
        out.kids.append(reparse(x, ns))
    return out


class StringIO(object):
    def __init__(self, initial=None, newline=None):
        self.chunks = []
        if initial is not None:
            self.chunks.append(initial)
        self.closed = False

    binary = False

    def write(self, x):
        if isinstance(x, Markup) and x.text == self.binary:
            raise TypeError('text or bytes')
        self.chunks.append(x)

    def getvalue(self):
        if len(self.chunks) == 1:
            return self.chunks[0]
        return self.chunks

    def read(self):
        return self.getvalue()

    def seek(self, n):
        pass

    def close(self):
        self.closed = True


class BytesIO(StringIO):
    binary = True


def parse(source, parser=None, forbid_dtd=False, forbid_entities=True, forbid_external=True):
    if isinstance(source, str):
        source = open_file(source, 'r')
    x = source.getvalue()
    return tree_of(x)


def tree_of(x):
    if isinstance(x, Markup):
        return ElementTree(reparse(x.root, {}))
    if isinstance(x, ElementTree):
        return x
    raise ParseError('not well-formed')


def fromstring(text, parser=None, forbid_dtd=False, forbid_entities=True, forbid_external=True):
    return tree_of(text).getroot()


class Data(object):
    """A piece of the content of a file."""
    def __init__(self, name, part, size):
        self.name = name
        self.part = part
        self.size = size

    def __len__(self):
        return self.size


class File(object):
    """A file, also standing for a response."""
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.chunks = []
        self.closed = False
        self.pos = 0

    def write(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if isinstance(x, Markup) and x.text == ('b' in self.mode):
            raise TypeError('text or bytes')
        if self.name in FULL or '*' in FULL:
            raise OSError('no space left on device')
        self.chunks.append(x)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return self.chunks[0]

    def read(self, size=-1):
        """Of a file opened in binary mode, two pieces make up the content; whole is one read for both."""
        if self.mode != 'rb':
            return self.chunks[0]
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.pos == 2:
            return b''
        if size is None or size < 0:
            x = Data(self.name, '12' if self.pos == 0 else '2', 100000)
            self.pos = 2
            return x
        self.pos += 1
        return Data(self.name, '1' if self.pos == 1 else '2', size if self.pos == 1 else 1)

    def __iter__(self):
        return self

    def __next__(self):
        x = self.read(1)
        if self.pos == 2 and not isinstance(x, Data):
            raise StopIteration()
        return x

    def seek(self, n, whence=0):
        self.pos = n

    def flush(self):
        pass

    def fileno(self):
        return 3

    def info(self):
        if self.name in NOLENGTH:
            return {}
        return {'Content-Length': '1'}

    def close(self):
        if not self.closed:
            self.closed = True
            LOG.append(('close', self.name, self.mode))
            if self.mode[0:1] != 'r':
                FILES[self.name] = self.chunks

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open_file(name, mode='r', *args, **kws):
    LOG.append(('open', name, mode))
    f = File(name, mode)
    if name in FAIL or name in NOREAD:
        raise OSError('cannot open')
    if mode[0:1] == 'r':
        if name in SIZES:
            pass
        elif name in FILES:
            f.chunks = FILES[name]
        else:
            raise OSError('no such file')
    return f


def entries(top):
    if top[-1:] == '/':
        top = top[:-1]
    dirs = []
    files = []
    for d in DIRS:
        if d.rpartition('/')[0] == top:
            dirs.append(d.rpartition('/')[2])
    for f in SIZES:
        if f.rpartition('/')[0] == top:
            files.append(f.rpartition('/')[2])
    for f in LINKS:
        if f.rpartition('/')[0] == top and f not in SIZES and f not in DIRS:
            files.append(f.rpartition('/')[2])
    return dirs, files


def walk(top, topdown=True, onerror=None, followlinks=False):
    if top not in DIRS and top[:-1] not in DIRS:
        if onerror is not None:
            onerror(OSError('no such directory'))
        return
    dirs, files = entries(top)
    if topdown:
        yield top, dirs, files
    for d in dirs:
        new = top + d if top[-1:] == '/' else top + '/' + d
        if followlinks or new not in LINKS:
            for x in walk(new, topdown, onerror, followlinks):
                yield x
    if not topdown:
        yield top, dirs, files


def listdir(top='.'):
    if top not in DIRS and top[:-1] not in DIRS:
        raise OSError('no such directory')
    dirs, files = entries(top)
    return dirs + files


TEMP = []


def mkstemp(suffix=None, prefix=None, dir=None, text=False):
    name = (dir if dir is not None else '/tmp') + '/' + (prefix or 'tmp') + 'x' + str(len(TEMP)) + (suffix or '')
    TEMP.append(name)
    LOG.append(('open', name, 'w'))
    FILES[name] = []
    return len(TEMP) + 2, name


def fdopen(fd, mode='r', *args, **kws):
    if isinstance(fd, str):
        return open_file(fd, mode)
    FILES.pop(TEMP[fd - 3])
    return open_file(TEMP[fd - 3], mode)


def closefd(fd):
    LOG.append(('close', TEMP[fd - 3], 'w'))


def temporary(mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **kws):
    fd, name = mkstemp(suffix, prefix, dir)
    return fdopen(fd, mode)


def open_uri(uri, *args, **kws):
    """A page given by the driver, or a failure."""
    LOG.append(('read', uri))
    for u, page in PAGES.items():
        if u == uri:
            if page is None:
                raise OSError('unreadable')
            f = File(uri, 'r')
            f.chunks = [page]
            return f
    raise OSError('no such page')


class Stat(object):
    def __init__(self, name):
        self.st_mtime = 0 if name.endswith('epoch') else ('mtime of', name, name in FILES or name in SIZES)
        self.st_size = SIZES[name] if name in SIZES else ('size of', name, name in FILES)


def there(name):
    for x in LOG:
        if x[0] == 'open' and x[1] == name and x[2][0:1] != 'r':
            return True
    return name in FILES or name in SIZES


def stat(name, **kws):
    LOG.append(('stat', name))
    if name in FAIL or not there(name) and name not in DIRS:
        raise OSError('no such file')
    return Stat(name)


def getmtime(name):
    return stat(name).st_mtime


def getsize(name):
    return stat(name).st_size


def exists(name):
    return there(name) or isdir(name)


def isfile(name):
    return there(name)


def isdir(name):
    return name in DIRS or name[-1:] == '/' and name[:-1] in DIRS


def islink(name):
    return name in LINKS


def replace(a, b, **kws):
    LOG.append(('rename', a, b))
    if a not in FILES:
        if there(a):
            # not closed: an unfinished file takes the place
            FILES[b] = 'unfinished'
            return
        raise OSError('no such file')
    FILES[b] = FILES.pop(a)


def copyfile(a, b, **kws):
    LOG.append(('copy', a, b))
    FILES[b] = FILES[a]


def copyfileobj(a, b, length=0):
    b.write(a.read())


def mkpath(name, *args, **kws):
    LOG.append(('mkdir', name))
    return []


def remove(name, **kws):
    LOG.append(('remove', name))
    if name in FILES:
        FILES.pop(name)
    elif name in SIZES:
        SIZES.pop(name)
    else:
        raise OSError('no such file')


def utime(name, times=None, **kws):
    LOG.append(('utime', name))


class ZipFile(object):
    def __init__(self, file, mode='r', compression=0, allowZip64=True, compresslevel=None, **kws):
        self.name = file
        self.mode = mode
        self.compression = compression
        self.members = []
        self.closed = False
        LOG.append(('open', file, mode))
        if file in FAIL:
            raise OSError('cannot open')
        if mode == 'a' and file in FILES:
            for m in FILES[file]:
                self.members.append(m)

    def writestr(self, name, data, compress_type=None, compresslevel=None):
        if self.closed:
            raise ValueError('closed')
        self.members.append((name, data))

    def write(self, filename, arcname=None, compress_type=None, compresslevel=None):
        if self.closed:
            raise ValueError('closed')
        if not there(filename) or filename in FAIL:
            raise OSError('no such file')
        self.members.append((arcname if arcname is not None else filename, ('content of', filename)))

    def namelist(self):
        return [m[0] for m in self.members]

    def close(self):
        if not self.closed:
            self.closed = True
            LOG.append(('close', self.name, self.mode))
            FILES[self.name] = self.members

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Hash(object):
    """A digest being computed."""
    def __init__(self, name, data=None):
        self.name = name
        self.text = ''
        if data is not None:
            self.update(data)

    def update(self, data):
        if isinstance(data, Data):
            self.text = self.text + data.name + ' ' + ('part ' + data.part if data.part != '12' else 'part 1' + data.name + ' part 2')
        else:
            self.text = self.text + 'other data'

    def hexdigest(self):
        return self.name + ' of ' + self.text

    def digest(self):
        return self.name + ' of ' + self.text


def md5(data=None, usedforsecurity=True):
    return Hash('md5', data)


def sha1(data=None, usedforsecurity=True):
    return Hash('sha1', data)


def sha256(data=None, usedforsecurity=True):
    return Hash('sha256', data)


def sha224(data=None, usedforsecurity=True):
    return Hash('sha224', data)


def sha384(data=None, usedforsecurity=True):
    return Hash('sha384', data)


def sha512(data=None, usedforsecurity=True):
    return Hash('sha512', data)


def newhash(name, data=None, usedforsecurity=True):
    return Hash(name.lower().replace('-', ''), data)


def file_digest(f, name):
    h = newhash(name) if isinstance(name, str) else name()
    h.update(f.read())
    return h


class Logger(object):
    """Keeps that there were warnings."""
    def __init__(self, name=None):
        self.name = name

    def debug(self, msg, *args, **kws):
        pass

    def info(self, msg, *args, **kws):
        pass

    def warning(self, msg, *args, **kws):
        LOG.append(('warning',))

    def warn(self, msg, *args, **kws):
        LOG.append(('warning',))

    def error(self, msg, *args, **kws):
        LOG.append(('warning',))

    def exception(self, msg, *args, **kws):
        LOG.append(('warning',))

    def critical(self, msg, *args, **kws):
        LOG.append(('warning',))

    def log(self, level, msg, *args, **kws):
        if level >= 30:
            LOG.append(('warning',))

    def isEnabledFor(self, level):
        return False

    def setLevel(self, level):
        pass


def log_warning(msg, *args, **kws):
    LOG.append(('warning',))


def log_error(msg, *args, **kws):
    LOG.append(('warning',))


def log_critical(msg, *args, **kws):
    LOG.append(('warning',))


def log_exception(msg, *args, **kws):
    LOG.append(('warning',))


class timedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.total = days * 86400 + seconds + microseconds / 1000000 + milliseconds / 1000 + minutes * 60 + hours * 3600 + weeks * 604800

    def total_seconds(self):
        return self.total

    def __add__(self, o):
        if isinstance(o, Moment):
            return o + self
        return timedelta(seconds=self.total + o.total)

    def __sub__(self, o):
        return timedelta(seconds=self.total - o.total)

    def __mul__(self, n):
        return timedelta(seconds=self.total * n)

    def __rmul__(self, n):
        return timedelta(seconds=self.total * n)

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self.total / o.total
        return timedelta(seconds=self.total / o)


class Utc(object):
    offset = 0


class timezone(object):
    utc = Utc()

    def __init__(self, offset, name=None):
        if not -86400 < offset.total < 86400:
            raise ValueError('offset too large')
        self.offset = offset.total


def gmtime(t=None):
    return Moment(clock() if t is None else t, None)


def localtime(t=None):
    return Moment(local(clock() if t is None else t), None)


class Moment(object):
    """A datetime: seconds of its wall clock, and of its offset if it has one."""
    def __init__(self, wall, offset):
        self.wall = wall
        self.offset = offset
        self.tzinfo = None if offset is None else timezone(timedelta(seconds=offset))

    def timetuple(self):
        return Moment(self.wall // 1, None)

    def utctimetuple(self):
        if self.offset is None:
            return Moment(self.wall // 1, None)
        return Moment((self.wall - self.offset) // 1, None)

    def timestamp(self):
        if self.offset is None:
            return unlocal(self.wall)
        return self.wall - self.offset

    def utcoffset(self):
        return None if self.offset is None else timedelta(seconds=self.offset)

    def replace(self, tzinfo='same', microsecond=None):
        wall = self.wall
        if microsecond is not None:
            wall = wall // 1 + microsecond / 1000000
        if tzinfo == 'same':
            return Moment(wall, self.offset)
        return Moment(wall, None if tzinfo is None else tzinfo.offset)

    def astimezone(self, tz=None):
        t = self.timestamp()
        if tz is None:
            return Moment(local(t), 0)
        return Moment(t + tz.offset, tz.offset)

    def __add__(self, d):
        return Moment(self.wall + d.total, self.offset)

    def __sub__(self, d):
        if isinstance(d, timedelta):
            return Moment(self.wall - d.total, self.offset)
        if self.offset is None:
            return timedelta(seconds=self.wall - d.wall)
        return timedelta(seconds=self.wall - self.offset - d.wall + d.offset)

    def isoformat(self, sep='T', timespec='auto'):
        text = iso(self.wall)
        if self.offset is None:
            return text
        return text + '+00:00'

    @classmethod
    def utcfromtimestamp(cls, t):
        return Moment(t, None)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if tz is None:
            return Moment(local(t), None)
        return Moment(t + tz.offset, tz.offset)

    @classmethod
    def now(cls, tz=None):
        return Moment.fromtimestamp(clock(), tz)

    @classmethod
    def utcnow(cls):
        return Moment(clock(), None)

    @classmethod
    def fromisoformat(cls, text):
        wall, offset = moment(text, 'iso')
        return Moment(wall, offset)

    @classmethod
    def strptime(cls, text, form):
        wall, offset = moment(text, form)
        return Moment(wall, offset)


class datetime(Moment):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        Moment.__init__(self, fields(year, month, day, hour, minute, second, microsecond), None if tzinfo is None else tzinfo.offset)


def fields(year, month, day, hour, minute, second, microsecond):
    pass


def parse_date(text, *args, **kws):
    wall, offset = moment(text, 'dateutil')
    return Moment(wall, offset)


def timegm(t):
    return t.wall


def mktime(t):
    return unlocal(t.wall)


def strptime(text, form):
    wall, offset = moment(text, form)
    return Moment(wall, None)


def moment(text, form):
    pass


def clock():
    pass


def local(t):
    pass


def unlocal(t):
    pass


def iso(t):
    pass


def get_logger(name=None):
    return Logger(name)


class Request(object):
    def __init__(self, url, data=None, headers={}, origin_req_host=None, unverifiable=False, method=None):
        self.full_url = url
        self.data = data
        self.headers = {}
        self.method = method
        for k, v in headers.items():
            self.add_header(k, v)

    def add_header(self, key, val):
        self.headers[key.capitalize()] = val

    def add_unredirected_header(self, key, val):
        self.add_header(key, val)

    def get_header(self, key, default=None):
        return self.headers.get(key, default)

    def has_header(self, key):
        return key in self.headers

    def get_method(self):
        return self.method if self.method is not None else 'GET'

    def get_full_url(self):
        return self.full_url


def urlopen(url, data=None, timeout='default', **kws):
    if isinstance(url, str):
        url = Request(url)
    LOG.append(('request', url.full_url, url.headers, url.get_method(), timeout))
    if url.full_url in FAIL:
        raise OSError('cannot open')
    return File(url.full_url, 'r')


def sleep(t):
    LOG.append(('sleep', t))


class ConfigParserError(Exception):
    pass


class NoSectionError(ConfigParserError):
    pass


class NoOptionError(ConfigParserError):
    pass


class DuplicateSectionError(ConfigParserError):
    pass


class ConfigParser(object):
    """Sections of options; a file of them holds a dictionary of dictionaries."""
    def __init__(self, defaults=None, **kws):
        self.data = {}

    def optionxform(self, name):
        return name.lower()

    def read(self, filenames, encoding=None):
        got = []
        if isinstance(filenames, str):
            filenames = [filenames]
        for f in filenames:
            if exists(f):
                self.read_file(open_file(f, 'r'))
                got.append(f)
        return got

    def read_file(self, f, source=None):
        data = f.getvalue()
        for s in data:
            if s not in self.data:
                self.data[s] = {}
            for k in data[s]:
                self.data[s][k] = data[s][k]

    def write(self, fp, space_around_delimiters=True):
        for s in self.data:
            for k in self.data[s]:
                if not isinstance(self.data[s][k], str):
                    raise TypeError('not a string')
        copy = {}
        for s in self.data:
            copy[s] = dict(self.data[s])
        fp.write(copy)

    def sections(self):
        return list(self.data)

    def has_section(self, s):
        return s in self.data

    def add_section(self, s):
        if s in self.data:
            raise DuplicateSectionError(s)
        self.data[s] = {}

    def remove_section(self, s):
        if s in self.data:
            del self.data[s]
            return True
        return False

    def options(self, s):
        if s not in self.data:
            raise NoSectionError(s)
        return list(self.data[s])

    def items(self, s):
        if s not in self.data:
            raise NoSectionError(s)
        return list(self.data[s].items())

    def has_option(self, s, o):
        return s in self.data and self.optionxform(o) in self.data[s]

    def get(self, s, o, raw=False, vars=None, fallback='none at all'):
        if s not in self.data:
            if fallback != 'none at all':
                return fallback
            raise NoSectionError(s)
        o = self.optionxform(o)
        if o not in self.data[s]:
            if fallback != 'none at all':
                return fallback
            raise NoOptionError(o)
        return self.data[s][o]

    def getfloat(self, s, o, raw=False, vars=None, fallback='none at all'):
        x = self.get(s, o, raw, vars, fallback)
        if x is None:
            return x
        return float(x)

    def set(self, s, o, value=None):
        if s not in self.data:
            raise NoSectionError(s)
        if value is not None and not isinstance(value, str):
            raise TypeError('option values must be strings')
        self.data[s][self.optionxform(o)] = value

    def remove_option(self, s, o):
        if s not in self.data:
            raise NoSectionError(s)
        o = self.optionxform(o)
        if o in self.data[s]:
            del self.data[s][o]
            return True
        return False

    def __contains__(self, s):
        return s in self.data

    def __getitem__(self, s):
        if s not in self.data:
            raise KeyError(s)
        return Section(self, s)


class Section(object):
    def __init__(self, parser, name):
        self.parser = parser
        self.name = name

    def get(self, o, fallback=None):
        return self.parser.get(self.name, o, fallback=fallback)

    def getfloat(self, o, fallback=None):
        return self.parser.getfloat(self.name, o, fallback=fallback)

    def __contains__(self, o):
        return self.parser.has_option(self.name, o)

    def __getitem__(self, o):
        if o not in self:
            raise KeyError(o)
        return self.parser.get(self.name, o)

    def __setitem__(self, o, v):
        self.parser.set(self.name, o, v)

    def __delitem__(self, o):
        if not self.parser.remove_option(self.name, o):
            raise KeyError(o)


def iter2(fn, sentinel):
    while True:
        x = fn()
        if x == sentinel:
            return
        yield x


def islice(iterable, *args):
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    else:
        if args[0] is not None:
            start = args[0]
        stop = args[1]
        if len(args) == 3 and args[2] is not None:
            step = args[2]
    src = iter(iterable)
    n = 0
    while stop is None or n < stop:
        try:
            x = next(src)
        except StopIteration:
            return
        if n >= start and (n - start) % step == 0:
            yield x
        n += 1


def to_str(dt='now', no_fractions=False):
    """W3C datetime of a timestamp, nothing for nothing."""
    if dt is None:
        return None
    if isinstance(dt, str):
        dt = 'now'
    return w3c(dt)


def to_time(s, context='datetime'):
    """The timestamp of a W3C datetime, an error for anything else."""
    if s is None:
        return None
    return unw3c(s)


def w3c(dt):
    pass


def unw3c(s):
    pass


ARGV = []


class ArgumentTypeError(Exception):
    pass


class Namespace(object):
    def __init__(self, **kws):
        for k, v in kws.items():
            setattr(self, k, v)


class Option(object):
    def __init__(self, names, kws, group):
        self.names = names
        self.group = group
        self.action = kws.get('action', 'store')
        self.type = kws.get('type')
        self.choices = kws.get('choices')
        self.const = kws.get('const')
        self.nargs = kws.get('nargs')
        self.required = kws.get('required', False)
        self.positional = len(names) == 0 or names[0][0:1] != '-'
        dest = kws.get('dest')
        if dest is None:
            for n in names:
                if dest is None and (n[0:2] == '--' or n[0:1] != '-'):
                    dest = n
            if dest is None:
                dest = names[0]
            while dest[0:1] == '-':
                dest = dest[1:]
            if not self.positional:
                dest = dest.replace('-', '_')
        self.dest = dest
        default = kws.get('default')
        if default is None and self.action == 'store_true':
            default = False
        if default is None and self.action == 'store_false':
            default = True
        self.default = default


class ArgumentGroup(object):
    def __init__(self, parser, exclusive=False, required=False):
        self.parser = parser
        self.exclusive = exclusive
        self.required = required

    def add_argument(self, *names, **kws):
        o = Option(names, kws, self)
        self.parser.options.append(o)
        return o

    def add_argument_group(self, *args, **kws):
        return ArgumentGroup(self.parser)

    def add_mutually_exclusive_group(self, required=False):
        g = ArgumentGroup(self.parser, True, required)
        self.parser.exclusives.append(g)
        return g


class ArgumentParser(ArgumentGroup):
    def __init__(self, *args, **kws):
        self.options = []
        self.exclusives = []
        self.defaults = {}
        self.parser = self
        self.exclusive = False
        self.required = False

    def error(self, message=None):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def print_help(self, file=None):
        pass

    def print_usage(self, file=None):
        pass

    def format_usage(self):
        return 'usage'

    def format_help(self):
        return 'help'

    def set_defaults(self, **kws):
        self.defaults.update(kws)

    def get_default(self, dest):
        for o in self.options:
            if o.dest == dest:
                return self.defaults.get(dest, o.default)
        return self.defaults.get(dest)

    def convert(self, o, value):
        if o.type is not None:
            try:
                value = o.type(value)
            except (ValueError, TypeError, ArgumentTypeError):
                self.error()
        if o.choices is not None and value not in o.choices:
            self.error()
        return value

    def parse_args(self, args=None, namespace=None):
        values = {}
        for o in self.options:
            d = self.defaults.get(o.dest, o.default)
            if o.positional and o.nargs == '*' and d is None:
                d = []
            if o.dest not in values:
                values[o.dest] = self.convert(o, d) if isinstance(d, str) and o.type is not None else d
        for k, v in self.defaults.items():
            if k not in values:
                values[k] = v
        seen = []
        rest = []
        for name, value in ARGV:
            if name is None:
                rest.append(value)
                continue
            found = None
            for o in self.options:
                if name in o.names:
                    found = o
            if found is None:
                self.error()
            o = found
            if o.action == 'store_true':
                new = True
            elif o.action == 'store_false':
                new = False
            elif o.action == 'store_const':
                new = o.const
            elif o.action == 'append_const':
                new = list(values[o.dest] or []) + [o.const]
            elif o.action == 'count':
                new = (values[o.dest] or 0) + 1
            elif o.action == 'append':
                new = list(values[o.dest] or []) + [self.convert(o, value)]
            elif o.nargs in ('+', '*', 1):
                new = [self.convert(o, value)]
            else:
                new = self.convert(o, value)
            values[o.dest] = new
            for x in seen:
                if o.group.exclusive and x is not o and x.group is o.group:
                    self.error()
            if o not in seen:
                seen.append(o)
        for o in self.options:
            if o.positional:
                if o.nargs in ('*', '+'):
                    if rest:
                        values[o.dest] = [self.convert(o, x) for x in rest]
                    elif o.nargs == '+':
                        self.error()
                    rest = []
                elif o.nargs == '?':
                    if rest:
                        values[o.dest] = self.convert(o, rest.pop(0))
                else:
                    if not rest:
                        self.error()
                    values[o.dest] = self.convert(o, rest.pop(0))
            elif o.required and o not in seen:
                self.error()
        if rest:
            self.error()
        for g in self.exclusives:
            if g.required:
                given = False
                for x in seen:
                    if x.group is g:
                        given = True
                if not given:
                    self.error()
        n = Namespace() if namespace is None else namespace
        for k, v in values.items():
            setattr(n, k, v)
        return n

    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args, namespace), []
'''

KEY = 'rsastub'

XML = {
    'xml.etree.ElementTree.Element': ('cls', KEY + '.Element'),
    'xml.etree.ElementTree.SubElement': ('fn', KEY + '.SubElement', None),
    'xml.etree.ElementTree.ElementTree': ('cls', KEY + '.ElementTree'),
    'xml.etree.ElementTree.tostring': ('fn', KEY + '.tostring', None),
    'defusedxml.ElementTree.parse': ('fn', KEY + '.parse', None),
    'defusedxml.ElementTree.fromstring': ('fn', KEY + '.fromstring', None),
    'defusedxml.ElementTree.XML': ('fn', KEY + '.fromstring', None),
    'defusedxml.ElementTree.tostring': ('fn', KEY + '.tostring', None),
    'defusedxml.ElementTree.ParseError': ('cls', KEY + '.ParseError'),
    'xml.etree.ElementTree.ParseError': ('cls', KEY + '.ParseError'),
    'itertools.islice': ('fn', KEY + '.islice', None),
    'io.StringIO': ('cls', KEY + '.StringIO'),
    'io.BytesIO': ('cls', KEY + '.BytesIO'),
}

TIMES = {
    'resync.w3c_datetime.datetime_to_str': ('fn', KEY + '.to_str', None),
    'resync.w3c_datetime.str_to_datetime': ('fn', KEY + '.to_time', None),
}

FILES = {
    'builtins.open': ('fn', KEY + '.open_file', None),
    'io.open': ('fn', KEY + '.open_file', None),
    'os.walk': ('fn', KEY + '.walk', None), 'os.listdir': ('fn', KEY + '.listdir', None),
    'os.fdopen': ('fn', KEY + '.fdopen', None), 'os.close': ('fn', KEY + '.closefd', None),
    'tempfile.mkstemp': ('fn', KEY + '.mkstemp', None), 'tempfile.NamedTemporaryFile': ('fn', KEY + '.temporary', None),
    'os.stat': ('fn', KEY + '.stat', None),
    'os.path.getmtime': ('fn', KEY + '.getmtime', None),
    'os.path.getsize': ('fn', KEY + '.getsize', None),
    'os.path.exists': ('fn', KEY + '.exists', None), 'os.path.lexists': ('fn', KEY + '.exists', None),
    'os.path.isfile': ('fn', KEY + '.isfile', None), 'os.path.isdir': ('fn', KEY + '.isdir', None), 'os.path.islink': ('fn', KEY + '.islink', None),
    'os.replace': ('fn', KEY + '.replace', None), 'os.rename': ('fn', KEY + '.replace', None), 'shutil.move': ('fn', KEY + '.replace', None),
    'shutil.copyfileobj': ('fn', KEY + '.copyfileobj', None), 'distutils.dir_util.mkpath': ('fn', KEY + '.mkpath', None), 'os.makedirs': ('fn', KEY + '.mkpath', None), 'os.mkdir': ('fn', KEY + '.mkpath', None),
    'shutil.copyfile': ('fn', KEY + '.copyfile', None), 'shutil.copy': ('fn', KEY + '.copyfile', None),
    'os.remove': ('fn', KEY + '.remove', None), 'os.unlink': ('fn', KEY + '.remove', None), 'os.utime': ('fn', KEY + '.utime', None),
    'zipfile.ZipFile': ('cls', KEY + '.ZipFile'),
    'hashlib.new': ('fn', KEY + '.newhash', None),
    'hashlib.file_digest': ('fn', KEY + '.file_digest', None),
}
FILES.update(('hashlib.' + h, ('fn', KEY + '.' + h, None)) for h in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'))

LOGS = {'logging.getLogger': ('fn', KEY + '.get_logger', None)}
LOGS.update(('logging.' + x, ('fn', KEY + '.log_' + x, None)) for x in ('warning', 'error', 'critical', 'exception'))

CLOCK = {'datetime.datetime': ('cls', KEY + '.datetime'), 'datetime.timedelta': ('cls', KEY + '.timedelta'), 'datetime.timezone': ('cls', KEY + '.timezone'),
         'time.gmtime': ('fn', KEY + '.gmtime', None), 'time.localtime': ('fn', KEY + '.localtime', None), 'dateutil.parser.parse': ('fn', KEY + '.parse_date', None), 'dateutil.parser.isoparse': ('fn', KEY + '.parse_date', None),
         'calendar.timegm': ('fn', KEY + '.timegm', None), 'time.time': ('fn', KEY + '.clock', None), 'time.mktime': ('fn', KEY + '.mktime', None),
         'time.strptime': ('fn', KEY + '.strptime', None)}

NET = {
    'urllib.request.Request': ('cls', KEY + '.Request'),
    'urllib.request.urlopen': ('fn', KEY + '.urlopen', None),
    'time.sleep': ('fn', KEY + '.sleep', None),
}

CONFIG = {'configparser.' + x: ('cls', KEY + '.' + x) for x in ('ConfigParser', 'NoSectionError', 'NoOptionError', 'DuplicateSectionError')}
CONFIG.update({'configparser.RawConfigParser': ('cls', KEY + '.ConfigParser'), 'configparser.SafeConfigParser': ('cls', KEY + '.ConfigParser'),
               'configparser.Error': ('cls', KEY + '.ConfigParserError')})

ARGS = {'argparse.ArgumentParser': ('cls', KEY + '.ArgumentParser'), 'argparse.Namespace': ('cls', KEY + '.Namespace'), 'argparse.ArgumentTypeError': ('cls', KEY + '.ArgumentTypeError'),
        'argparse.ArgumentError': ('cls', KEY + '.ArgumentTypeError'), 'sys.version_info': C((3, 12, 3, 'final', 0))}

PAGES = {
    'resync.url_or_file_open.url_or_file_open': ('fn', KEY + '.open_uri', None),
}


def install(prog):
    if KEY not in prog.modules:
        m = ModuleInfo(KEY, KEY, KEY, SOURCE)
        m.source = SOURCE
        prog.modules[KEY] = m
        prog._collect(m)
        for k, c in prog.classes.items():
            if k.startswith(KEY + '.'):
                c.finish(prog)


def present(st, v):
    st.learn(('isnone', v), False)
    st.learn(('truth', v), True)
    for x in ('', 'now'):
        st.learn(mk_eq(v, C(x)), False)


def _w3c(ip, st, fi, selfv, args, kws, node):
    v = ('call', 'w3c', (args[0],), ())
    ip.types[v] = 'str'
    present(st, v)
    return [(st, v)]


def _unw3c(ip, st, fi, selfv, args, kws, node):
    v = args[0]
    if v[0] == 'call' and v[1] == 'w3c':
        return [(st, v[2][0])]
    if v[0] == 'c' and isinstance(v[2], str):
        ip.throw(st, 'builtins.ValueError', (C('bad datetime'),), node)
        return []
    known = st.decide(('w3c', v))
    if known is not None:
        good, bad = ([st], []) if known else ([], [st])
    else:
        good, bad = ip.fork(st, ('w3c', v), False, node)
    for s in bad:
        ip.throw(s, 'builtins.ValueError', (C('bad datetime'),), node)
    t = ('call', 'time', (v,), ())
    ip.types.setdefault(t, 'float')
    return [(s, t) for s in good]


def _opaque(name, typ):
    def f(ip, st, fi, selfv, args, kws, node):
        v = ('call', name, tuple(args), ())
        ip.types[v] = typ
        return [(st, v)]
    return f


def _moment(ip, st, fi, selfv, args, kws, node):
    import datetime
    import re
    text, form = args
    if text[0] != 'c' or form[0] != 'c' or not isinstance(text[2], str):
        return [(st, ('tup', (('fresh', 'wall', ip.site(st, node)), ('fresh', 'offset', ip.site(st, node)))))]
    text, form = text[2], form[2]
    try:
        if form == 'dateutil':
            if not re.match(r'\d{4}-\d\d-\d\d(T\d\d:\d\d(:\d\d(\.\d+)?)?(Z|[+-]\d\d:?\d\d)?)?$', text, re.ASCII):
                return [(st, ('tup', (('fresh', 'wall', ip.site(st, node)), ('fresh', 'offset', ip.site(st, node)))))]
            d = datetime.datetime.fromisoformat(text)
        elif form == 'iso':
            d = datetime.datetime.fromisoformat(text)
        else:
            d = datetime.datetime.strptime(text, form)
    except ValueError:
        ip.throw(st, 'builtins.ValueError', (C('bad datetime'),), node)
        return []
    off = d.utcoffset()
    d = d.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)
    wall = d.days * 86400 + d.seconds
    if d.microseconds:
        wall += d.microseconds / 1e6
    return [(st, ('tup', (C(wall), C(None) if off is None else C(int(off.total_seconds())))))]


def _fields(ip, st, fi, selfv, args, kws, node):
    import datetime
    if any(a[0] != 'c' for a in args):
        return [(st, ('call', 'moment of', tuple(args), ()))]
    try:
        d = datetime.datetime(*[a[2] for a in args]) - datetime.datetime(1970, 1, 1)
    except ValueError:
        ip.throw(st, 'builtins.ValueError', (C('bad datetime'),), node)
        return []
    return [(st, C(d.days * 86400 + d.seconds + (d.microseconds / 1e6 if d.microseconds else 0)))]


HOOKS = {KEY + '.fields': _fields, KEY + '.w3c': _w3c, KEY + '.unw3c': _unw3c, KEY + '.moment': _moment, KEY + '.clock': _opaque('now', 'float'),
         KEY + '.local': _opaque('local time of', 'float'), KEY + '.unlocal': _opaque('time of local', 'float'), KEY + '.iso': _opaque('iso', 'str')}
