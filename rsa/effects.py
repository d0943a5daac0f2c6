"""What external operations do to the file system.

`install(ip, cb)` hooks every operation of the table; cb(ip, st, kind, info, node)
is called before the operation takes effect, with
  kind 'open'   info (path, mode, fileref)   a file opened for writing
       'create' info (path,)                 a file created or overwritten in one call
       'delete' info (path,)
       'rename' info (src, dst)
       'utime'  info (path, times)
       'mkdir'  info (path,)
       'chmod'  info (path,)
       'exec'   info (command,)
       'copy'   info (srcfile, dstfile)      content copied from a file object to a file object
       'write'  info (fileref, data)         data written to an open file
       'close'  info (fileref,)
fail(ip, st, op, node), if given, is called first and may throw (in a copy of the state) the
exceptions the operation can raise.
"""
from .state import C, NONE, Obj, mentions
from .interp import has_ref
from . import ext as X

WRAP = {'builtins.str', 'os.fspath', 'pathlib.Path', 'pathlib.PurePath', 'os.fsencode', 'builtins.bytes',
        'pathlib.PosixPath'}


def strip(v):
    """Path value without wrappers that do not change the path."""
    while True:
        if v[0] == 'call' and v[1] in WRAP and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == 'cat' and len(v[1]) == 1:
            v = v[1][0]
        elif v[0] == 'tup' and len(v[1]) == 1:
            v = v[1][0]
        elif v[0] == 'meth' and v[2] in ('as_posix', '__fspath__', '__str__') and not v[3]:
            v = v[1]
        else:
            return v


def is_path(v):
    return v[0] == 'call' and v[1] in ('pathlib.Path', 'pathlib.PosixPath')


def mode_of(args, kws, pos=1):
    m = args[pos] if len(args) > pos else kws.get('mode')
    if m is None:
        return 'r'
    return m[2] if m[0] == 'c' else None


def writing(mode):
    return mode is None or any(ch in mode for ch in 'wax+')


def arg(args, kws, i, name):
    if len(args) > i:
        return args[i]
    return kws.get(name, NONE)


def any_fail(ip, st, op, node):
    ip.throw(st.copy(), 'builtins.OSError', (C('os error'),), node, exact=False)


def install(ip, cb, fail=any_fail):
    def maybe(st, node, op):
        if fail is not None:
            fail(ip, st, op, node)

    def h_open(ip, st, name, recv, args, kws, node):
        p = arg(args, kws, 0, 'file') if args or 'file' in kws else arg(args, kws, 0, 'filename')
        mode = mode_of(args, kws)
        w = writing(mode)
        if name == 'os.fdopen':
            w = writing(mode)
        maybe(st, node, 'open')
        if recv is not None:
            p = recv
            mode = mode_of(args, kws, 0)
            w = writing(mode)
        p = strip(p)
        r = X._b_open(ip, st, [p, C(mode if mode is not None else 'w')], {}, node)
        for s, f in r:
            if w:
                cb(ip, s, 'open', (p, mode, f), node)
        return r

    def h_pathopen(ip, st, name, recv, args, kws, node):
        if recv is not None and is_path(recv):
            return h_open(ip, st, name, recv, args, kws, node)
        return None

    def h_osopen(ip, st, name, recv, args, kws, node):
        fl = args[1] if len(args) > 1 else kws.get('flags', NONE)
        if any(f in repr(fl) for f in ('O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND')):
            maybe(st, node, 'create')
            cb(ip, st, 'create', (strip(args[0]),), node)
        return None

    def simple(kind, *pos):
        def h(ip, st, name, recv, args, kws, node):
            vals = [recv] + list(args) if recv is not None else list(args)
            info = []
            for i, nm in pos:
                info.append(strip(vals[i]) if len(vals) > i else strip(kws.get(nm, NONE)))
            maybe(st, node, kind)
            cb(ip, st, kind, tuple(info), node)
            return [(st, NONE)] if kind in ('delete', 'utime', 'chmod') else None
        return h

    def pathm(kind, *pos):
        inner = simple(kind, *pos)

        def h(ip, st, name, recv, args, kws, node):
            if recv is None or not is_path(recv):
                return None
            return inner(ip, st, name, recv, args, kws, node)
        return h

    def h_archive(ip, st, name, recv, args, kws, node):
        mode = mode_of(args, kws)
        if writing(mode):
            maybe(st, node, 'open')
            ref = ip.ext_result(st, name, None, args, kws, node)
            cb(ip, st, 'open', (strip(arg(args, kws, 0, 'file')), mode, ref), node)
            return [(st, ref)]
        return None

    def h_copyfileobj(ip, st, name, recv, args, kws, node):
        maybe(st, node, 'copy')
        cb(ip, st, 'copy', (arg(args, kws, 0, 'fsrc'), arg(args, kws, 1, 'fdst')), node)
        return [(st, NONE)]

    def h_fwrite(ip, st, name, recv, args, kws, node):
        o = ip.obj(st, recv)
        if o is not None and o.kind == 'file':
            maybe(st, node, 'write')
            cb(ip, st, 'write', (recv, args[0] if args else NONE), node)
            return None
        return None

    def h_fclose(ip, st, name, recv, args, kws, node):
        o = ip.obj(st, recv)
        if o is not None and o.kind == 'file' and o.attrs.get('open') == C(True):
            cb(ip, st, 'close', (recv,), node)
        return None

    def h_xclose(ip, st, name, recv, args, kws, node):
        cb(ip, st, 'close', (recv,), node)
        return None

    def h_pathwrite(ip, st, name, recv, args, kws, node):
        if recv is not None and is_path(recv):
            maybe(st, node, 'create')
            cb(ip, st, 'create', (strip(recv),), node)
            return [(st, ('int', 0))]
        return None

    def h_read(ip, st, name, recv, args, kws, node):
        o = ip.obj(st, recv) if recv is not None else None
        if o is not None and o.kind == 'inst':
            return None
        t = ('fresh', 'data', ip.site(st, node) + (recv,))
        ip.refresh(st, t)
        maybe(st, node, 'read')
        return [(st, t)]

    def h_etwrite(ip, st, name, recv, args, kws, node):
        tgt = arg(args, kws, 0, 'file_or_filename')
        o = ip.obj(st, tgt)
        maybe(st, node, 'write')
        if o is not None and o.kind in ('file', 'ext', 'inst'):
            if o.kind == 'file':
                cb(ip, st, 'write', (tgt, recv), node)
        elif ip.typ(st, tgt) == 'str' or tgt[0] in ('c', 'cat') or is_path(tgt):
            cb(ip, st, 'create', (strip(tgt),), node)
        return [(st, NONE)]

    def h_exec(ip, st, name, recv, args, kws, node):
        cb(ip, st, 'exec', (args[0] if args else NONE,), node)
        return None

    def h_tmp(ip, st, name, recv, args, kws, node):
        cb(ip, st, 'open', (('fresh', 'tempfile', ip.site(st, node)), 'w+b', NONE), node)
        return None

    H = ip.hooks
    for n in ('builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen'):
        H[n] = h_open
    H['.open'] = h_pathopen
    H['os.open'] = h_osopen
    for n in ('os.unlink', 'os.remove', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'distutils.dir_util.remove_tree'):
        H[n] = simple('delete', (0, 'path'))
    for n in ('os.rename', 'os.replace', 'os.renames', 'shutil.move'):
        H[n] = simple('rename', (0, 'src'), (1, 'dst'))
    H['os.utime'] = lambda ip, st, name, recv, args, kws, node: h_utime(ip, st, args, kws, node)

    def h_utime(ip, st, args, kws, node):
        maybe(st, node, 'utime')
        t = args[1] if len(args) > 1 else kws.get('times', kws.get('ns', NONE))
        if 'ns' in kws:
            t = ('ns', kws['ns'])
        ex = ip.exact_items(st, t)
        if ex is not None:
            t = ('tup', tuple(ex))
        cb(ip, st, 'utime', (strip(args[0] if args else kws.get('path', NONE)), t), node)
        return [(st, NONE)]
    for n in ('os.mkdir', 'os.makedirs', 'distutils.dir_util.mkpath', 'os.mkfifo', 'os.mknod'):
        H[n] = simple('mkdir', (0, 'name'))
    for n in ('os.chmod', 'os.chown', 'os.lchown', 'os.setxattr'):
        H[n] = simple('chmod', (0, 'path'))
    for n in ('os.truncate',):
        H[n] = simple('create', (0, 'path'))
    for n in ('os.link', 'os.symlink'):
        H[n] = simple('create', (1, 'dst'))
    for n in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'distutils.file_util.copy_file', 'shutil.copytree',
              'urllib.request.urlretrieve', 'distutils.dir_util.copy_tree', 'distutils.file_util.move_file'):
        H[n] = simple('create', (1, 'dst'), (0, 'src'))
    for n in ('shutil.make_archive',):
        H[n] = simple('create', (0, 'base_name'))
    for n in ('zipfile.ZipFile', 'tarfile.open', 'tarfile.TarFile'):
        H[n] = h_archive
    H['warc.WARCFile'] = lambda ip, st, name, recv, args, kws, node: h_archive(ip, st, name, recv, args, kws, node)
    for n in ('zipfile.ZipFile.close', 'tarfile.open.close', 'tarfile.TarFile.close', 'warc.WARCFile.close'):
        H[n] = h_xclose
    H['shutil.copyfileobj'] = h_copyfileobj
    H['file.write'] = h_fwrite
    H['file.writelines'] = h_fwrite
    H['file.close'] = h_fclose
    H['.read'] = h_read
    H['file.read'] = h_read
    H['xml.etree.ElementTree.ElementTree.write'] = h_etwrite
    for n in ('os.system', 'os.popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.Popen',
              'subprocess.check_output', 'os.execv', 'os.spawnv'):
        H[n] = h_exec
    for n in ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.mkstemp', 'tempfile.SpooledTemporaryFile'):
        H[n] = h_tmp
    H['.unlink'] = pathm('delete', (0, 'path'))
    H['.rmdir'] = pathm('delete', (0, 'path'))
    H['.mkdir'] = pathm('mkdir', (0, 'path'))
    H['.touch'] = pathm('create', (0, 'path'))
    H['.rename'] = pathm('rename', (0, 'src'), (1, 'dst'))
    H['.replace'] = pathm('rename', (0, 'src'), (1, 'dst'))
    H['.chmod'] = pathm('chmod', (0, 'path'))
    H['.write_bytes'] = h_pathwrite
    H['.write_text'] = h_pathwrite
