"""Rules about dumps: what an archive holds (C34), how a dump is divided (C35)."""
import itertools
import posixpath

from ..state import C, show
from ..drive import Driver, judge, Pred
from ..stubs import XML, TIMES, FILES, PAGES
from .common import scenario
from .list_rules import uris
from .xml_rules import COMMON

DUMP = COMMON + '''
def collection(kind, entries):
    if kind == 'list':
        rs = []
    elif kind == 'resources':
        rs = ResourceList()
    elif kind == 'changes':
        rs = ChangeList()
    elif kind == 'container':
        rs = ResourceContainer()
    elif kind == 'set':
        rs = ResourceSet()
    for atts in entries:
        r = Resource(**atts)
        if kind == 'list':
            rs.append(r)
        else:
            rs.add(r)
    return rs


def paths(m):
    """(uri, path) of every entry of a document."""
    if not isinstance(m, Markup):
        return ('not made by the serializer', m)
    out = []
    for e in m.root.kids:
        if e.tag == 'url':
            out.append(([k.text for k in e.kids if k.tag == 'loc'], [k.attrib.get('path') for k in e.kids if k.tag == 'rs:md']))
    return out


def capability(m):
    return [k.attrib.get('capability') for k in m.root.kids if k.tag == 'rs:md']


def archive(name):
    """The manifest, the members."""
    if name not in FILES:
        return ('missing', name)
    ms = FILES[name]
    manifest = [m[1] for m in ms if m[0] == 'manifest.xml']
    if len(manifest) != 1:
        return ('manifests', len(manifest))
    return ('archive', paths(manifest[0]), [m for m in ms if m[0] != 'manifest.xml'], capability(manifest[0]))


def dump(kind, entries, files, opts, attrs, base, separate):
    for f in files:
        if files[f] is not None:
            SIZES[f] = files[f]
    d = Dump(resources=collection(kind, entries), **opts)
    for a in attrs:
        setattr(d, a, attrs[a])
    LOG.clear()
    error = None
    try:
        if separate is None:
            n = d.write(base)
        else:
            n = d.write(base, separate)
    except (DumpError, OSError):
        return 'error', [x for x in LOG if x[0] == 'open' and x[2][0:1] != 'r']
    opened = []
    still = []
    bad = []
    for x in LOG:
        if x[0] == 'open' and x[2][0:1] != 'r':
            opened.append(x[1])
            still.append(x[1])
        elif x[0] == 'close' and x[1] in still:
            still.remove(x[1])
        elif x[0] == 'stat' and x[1] in still:
            bad.append(x[1])
    zips = [f for f in opened if not f.endswith('.xml')]
    return 'written', n, [(f, archive(f)) for f in zips], [(f, paths(FILES[f][0]), len(FILES[f])) for f in opened if f.endswith('.xml')], still, bad


def dump_again(kind, entries, files, opts, base, old):
    for f in old:
        FILES[f] = [('manifest.xml', 'old manifest'), ('old', ('content of', '/old'))]
        SIZES[f] = 9
    return dump(kind, entries, files, opts, {}, base, None)


def one(kind, entries, files, opts):
    """A single archive, by write_zip."""
    for f in files:
        SIZES[f] = files[f]
    rs = collection(kind, entries)
    d = Dump(resources=rs, **opts)
    d.check_files()
    d.write_zip(rs, '/out/one.zip')
    return archive('/out/one.zip')


def parts(kind, entries, attrs):
    d = Dump(resources=collection(kind, entries))
    for a in attrs:
        setattr(d, a, attrs[a])
    out = []
    for m in d.partition_dumps():
        out.append([r.uri for r in m])
    return out


def parts_list(kind, entries, attrs):
    """All manifests first, their contents later."""
    d = Dump(resources=collection(kind, entries))
    for a in attrs:
        setattr(d, a, attrs[a])
    ms = list(d.partition_dumps())
    return [[r.uri for r in m] for m in ms]
'''

SITE = 'resync.dump.Dump.'


def full(p):
    return posixpath.normpath(posixpath.join('/cwd', p))


def relative(files):
    """Local file -> path in the archive."""
    base = posixpath.commonpath([posixpath.dirname(full(f)) for f in files])
    return {f: posixpath.relpath(full(f), base) for f in files}


LAYOUTS = [
    ('one file', ['/data/a']),
    ('one directory', ['/data/a', '/data/b.txt', '/data/c d']),
    ('two directories', ['/data/x/a', '/data/y/a']),
    ('directories that begin alike', ['/data/ab/f', '/data/abc/f', '/data/abd/g']),
    ('nested directories', ['/data/a', '/data/d/a', '/data/d/e/a', '/data/d/e/f']),
    ('deepest first', ['/data/d/e/f', '/data/d/a', '/data/g']),
    ('file named like a directory of another', ['/data/d1', '/data/d/x']),
    ('different roots', ['/data/a', '/home/a']),
    ('the root', ['/a', '/b/c']),
    ('relative', ['dir/a', 'dir/sub/b']),
    ('relative and absolute', ['dir/a', '/cwd/dir/b', '/cwd/other/c']),
    ('not normalized', ['/data/x/../a', '/data//b', '/data/./c/d']),
    ('relative plain', ['a', 'b/c']),
    ('manifest elsewhere', ['/data/d/manifest.xml', '/data/a']),
]
# a file in the place of the manifest
CLASHES = [['/data/manifest.xml', '/data/a'], ['/data/a', '/data/manifest.xml'], ['manifest.xml'], ['/a', '/data/../manifest.xml'], ['/data/b/x', '/data/manifest.xml', '/data/b/manifest.xml']]


def entries_for(S, st, files, us, lengths=None):
    return [{'uri': us[i], 'path': C(f), **({'length': lengths[i]} if lengths and lengths[i] is not None else {})} for i, f in enumerate(files)]


def rule_C34(prog, rep, tier):
    R = rep.rule('content', """Every layout of local files, collection, option: the archive holds one manifest, and for each of its entries one member named
        by the path the manifest gives, with the content of the local file; the path is the one relative to the common directory.""")
    R2 = rep.rule('checked', """One file missing, of another size than stated, too large, without path or in the place of the manifest, at every position: an error, and no archive or
        manifest was opened.""")
    R3 = rep.rule('format', 'An unknown format is an error.')

    def content(files, us):
        rel = relative(files)
        want = {(us[i], C(rel[f])): C(f) for i, f in enumerate(files)}

        def ok(S, st, got):
            if not isinstance(got, tuple) or len(got) != 4 or got[0] != C('archive'):
                return False
            _, entries, members, cap = got
            if cap != (C('resourcedump-manifest'),):
                return False
            left = dict(want)
            names = []
            for e in entries:
                if len(e) != 2 or len(e[0]) != 1 or len(e[1]) != 1:
                    return False
                k = (e[0][0], e[1][0])
                if k not in left:
                    return False
                f = left.pop(k)
                mine = [m for m in members if m[0] == k[1]]
                if len(mine) != 1 or mine[0][1] != (C('content of'), f):
                    return False
                names.append(k[1])
            return not left and len(members) == len(names)
        return Pred('the manifest, and as members %s' % ', '.join(rel[f] for f in files), ok)

    def go():
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        n = 0
        for name, files in LAYOUTS:
            orders = [tuple(range(len(files)))] + ([tuple(range(len(files)))[::-1]] if len(files) > 1 else [])
            for order in orders:
                for kind in ('list', 'resources', 'changes', 'container', 'set'):
                    for opts in ({}, {'compress': False}, {'format': 'zip'}) if kind == 'list' else ({},):
                        for lengths in ('none', 'given'):
                            st = S.state()
                            us = uris(S, st, len(files))
                            es = entries_for(S, st, files, us, [10 + i for i in range(len(files))] if lengths == 'given' else None)
                            es = [es[i] for i in order]
                            if kind == 'changes':
                                for e in es:
                                    e['change'] = C('updated')
                            sizes = {f: 10 + i for i, f in enumerate(files)}
                            for sep in (None, True, False) if kind == 'list' and not opts else (None,):
                                st1 = st.copy()
                                rets, raises = S.call('dump', [kind, es, sizes, opts, {}, C('/out/d_'), sep], st1)
                                want = (C('written'), C(1), ((Pred('any name', lambda S, st, g: True), content(files, us)),), Pred('any', lambda S, st, g: True), (), ())
                                n += judge(rep, S, R, SITE + 'write_zip', '%s of %s in order %s%s, lengths %s' % (kind, name, order, ', %s' % opts if opts else '', lengths),
                                           '%s%s' % (name, ', %s' % opts if opts else ''), rets, raises, want)
                            if not opts and lengths == 'none':
                                st1 = st.copy()
                                rets, raises = S.call('one', [kind, es, sizes, opts], st1)
                                n += judge(rep, S, R, SITE + 'write_zip', '%s of %s in order %s by write_zip' % (kind, name, order), name + ' by write_zip', rets, raises, content(files, us))
        # empty files; an archive of that name is there already
        for name, files in LAYOUTS[:5]:
            for kind in ('list', 'resources'):
                for sizes in ([0, 3, 0, 1], [2, 0, 1, 0]):
                    st = S.state()
                    us = uris(S, st, len(files))
                    want = (C('written'), C(1), ((Pred('any name', lambda S, st, g: True), content(files, us)),), Pred('any', lambda S, st, g: True), (), ())
                    rets, raises = S.call('dump', [kind, entries_for(S, st, files, us), dict(zip(files, sizes)), {}, {}, C('/out/d_'), None], st)
                    n += judge(rep, S, R, SITE + 'write_zip', '%s of %s, sizes %s' % (kind, name, sizes), name + ', some empty', rets, raises, want)
                for opts in ({}, {'compress': False}):
                    st = S.state()
                    us = uris(S, st, len(files))
                    rets, raises = S.call('dump_again', [kind, entries_for(S, st, files, us), dict.fromkeys(files, 7), opts, C('/out/d_'), ['/out/d_00000.zip', '/out/d_00000.xml']], st)
                    n += judge(rep, S, R, SITE + 'write_zip', '%s of %s, an old archive in its place' % (kind, name), name + ', old archive', rets, raises, want)
        rep.absorb(S.ip, 'content', n)
    scenario(rep, 'content', go)

    def go():
        # archives of a divided dump: paths are relative to the directory common to all of them
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        n = 0
        for name, files in [x for x in LAYOUTS if len(x[1]) > 1]:
            for limit in (1, 2):
                st = S.state()
                us = uris(S, st, len(files))
                es = entries_for(S, st, files, us)
                sizes = {f: 10 + i for i, f in enumerate(files)}
                rets, raises = S.call('dump', ['list', es, sizes, {}, {'max_files': limit}, C('/out/d_'), None], st)
                rel = relative(files)

                def ok(S, st, got, files=files, us=us, rel=rel, limit=limit):
                    seen = []
                    for _, a in got:
                        if a[0] != C('archive'):
                            return False
                        for e in a[1]:
                            seen.append((e[0][0], e[1][0]))
                            if [m[1] for m in a[2] if m[0] == e[1][0]] != [(C('content of'), C(files[us.index(e[0][0])]))]:
                                return False
                    return sorted(seen, key=repr) == sorted([(us[i], C(rel[f])) for i, f in enumerate(files)], key=repr)
                any_ = Pred('any', lambda S, st, g: True)
                n += judge(rep, S, R, SITE + 'write_zip', '%s in archives of %d' % (name, limit), name + ' divided', rets, raises,
                           (C('written'), any_, Pred('archives whose members have the paths %s' % ', '.join(rel.values()), ok), any_, (), ()))
        rep.absorb(S.ip, 'divided', n)
    scenario(rep, 'divided', go)

    def go():
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        n = 0
        none = Pred('no file opened for writing', lambda S, st, g: g == ())
        for count in (1, 2, 3):
            files = ['/data/%s' % x for x in 'abc'[:count]]
            for bad in range(count):
                for what in ('missing', 'no path', 'longer', 'shorter', 'too large', 'empty but length given', 'length zero given'):
                    for limits in ({}, {'max_files': 1}):
                        for kind in ('list', 'resources', 'changes'):
                            for sep in (True, False):
                                st = S.state()
                                us = uris(S, st, count)
                                lengths = [None] * count
                                sizes = {f: 10 for f in files}
                                attrs = dict(limits)
                                if what == 'missing':
                                    sizes[files[bad]] = None
                                elif what in ('longer', 'shorter'):
                                    lengths[bad] = 11 if what == 'longer' else 9
                                elif what == 'too large':
                                    sizes[files[bad]] = 1001
                                    attrs['max_size'] = 1000
                                elif what == 'empty but length given':
                                    sizes[files[bad]] = 0
                                    lengths[bad] = 5
                                elif what == 'length zero given':
                                    lengths[bad] = 0
                                es = entries_for(S, st, files, us, lengths)
                                if what == 'no path':
                                    del es[bad]['path']
                                if kind == 'changes':
                                    for e in es:
                                        e['change'] = C('updated')
                                rets, raises = S.call('dump', [kind, es, sizes, {}, attrs, C('/out/d_'), sep], st)
                                n += judge(rep, S, R2, SITE + 'check_files', '%s of %d files, file %d %s%s' % (kind, count, bad, what, ', archives of one' if limits else ''),
                                           '%s file of %s' % (what, kind), rets, raises, (C('error'), none))
        for files in CLASHES:
            for kind in ('list', 'resources', 'set'):
                for limits in ({}, {'max_files': 1}):
                    st = S.state()
                    us = uris(S, st, len(files))
                    rets, raises = S.call('dump', [kind, entries_for(S, st, files, us), {f: 10 for f in files}, {}, limits, C('/out/d_'), True], st)
                    n += judge(rep, S, R2, SITE + 'check_files', '%s of %s%s' % (kind, files, ', archives of one' if limits else ''), 'manifest.xml among the files of %s' % kind,
                               rets, raises, (C('error'), none))
        for count in (1, 2):
            files = ['/data/%s' % x for x in 'ab'[:count]]
            for fmt in ('tar', 'ZIP', '', 'zip ', 'other'):
                for sep in (True, False):
                    st = S.state()
                    us = uris(S, st, count)
                    f = S.value(st, 'format', 'str', ('zip', 'warc')) if fmt == 'other' else fmt
                    rets, raises = S.call('dump', ['list', entries_for(S, st, files, us), {x: 5 for x in files}, {'format': f}, {}, C('/out/d_'), sep], st)
                    n += judge(rep, S, R3, SITE + 'write', 'format %r' % fmt, 'format %r' % fmt, rets, raises, (C('error'), Pred('anything', lambda S, st, g: True)))
        rep.absorb(S.ip, 'checks', n)
    scenario(rep, 'checks', go)


# ---------------------------------------------------------------------- C35

def divide(sizes, max_size, max_files):
    out, cur, total = [], [], 0
    for i, s in enumerate(sizes):
        cur.append(i)
        total += s
        if total >= max_size or len(cur) >= max_files:
            out.append(cur)
            cur, total = [], 0
    if cur:
        out.append(cur)
    return out


def rule_C35(prog, rep, tier):
    R = rep.rule('division', """Up to six files, every pattern of sizes around the size limit, every file-count limit: the manifests are those closed as soon as a
        limit is reached, none empty, none lost.""")
    R2 = rep.rule('unknown-sizes', 'Files of unknown sizes and an unknown limit: on every path each resource is in exactly one manifest, in order, none empty.')
    R3 = rep.rule('archives', 'Each archive, and each separate manifest, holds exactly the resources of its manifest, under a name of its own; their number is returned.')
    PATTERNS = {0: [()], 1: [(0,), (9,), (10,), (11,)]}
    for n in range(2, 7):
        base = [(1,) * n, (5,) * n, (10,) * n, (4,) * n, (0,) * n, (9, 1) * (n // 2) + (9,) * (n % 2), (1, 9) * (n // 2) + (1,) * (n % 2),
                (1,) * (n - 1) + (10,), (10,) + (1,) * (n - 1), tuple(range(n)), tuple(range(10, 10 + n)), (6, 3) * (n // 2) + (2,) * (n % 2)]
        PATTERNS[n] = sorted(set(base))
    SORT = {'resources': True, 'set': True}

    def go(fn):
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        k = 0
        for n in PATTERNS:
            for sizes in PATTERNS[n]:
                for max_files in (1, 2, 3, 4, 100) if fn == 'parts' else (2, 100):
                    for kind in ('list', 'resources', 'changes', 'container', 'set') if fn == 'parts' and n in (0, 3, 4) else ('list', 'resources'):
                        st = S.state()
                        us = uris(S, st, max(n, 1))
                        es = [{'uri': us[i], 'path': C('/data/%d' % i), 'length': sizes[i]} for i in range(n)]
                        if kind == 'changes':
                            for e in es:
                                e['change'] = C('created')
                        rets, raises = S.call(fn, [kind, es, {'max_size': 10, 'max_files': max_files}], st)
                        want = tuple(tuple(us[i] for i in p) for p in divide(sizes, 10, max_files))
                        k += judge(rep, S, R, SITE + 'partition_dumps', '%s of files of sizes %s, limits 10 and %d%s' % (kind, sizes, max_files, '' if fn == 'parts' else ', all manifests first'),
                                   '%d files, file limit %d, %s' % (n, max_files, kind), rets, raises, want)
        rep.absorb(S.ip, 'division', k)
    scenario(rep, 'division', go, 'parts')
    scenario(rep, 'division, all first', go, 'parts_list')

    def go():
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        k = 0
        for n in range(1, 5):
            for max_files in (1, 2, 3, 100):
                for kind in ('list', 'resources'):
                    st = S.state()
                    us = uris(S, st, n)
                    es = [{'uri': us[i], 'path': C('/data/%d' % i), 'length': S.value(st, 'length%d' % i, 'int')} for i in range(n)]
                    rets, raises = S.call('parts', [kind, es, {'max_size': S.value(st, 'limit', 'int'), 'max_files': max_files}], st)

                    def ok(S, st, got, us=us, n=n, max_files=max_files):
                        return isinstance(got, tuple) and all(isinstance(p, tuple) and 0 < len(p) <= max_files for p in got) and tuple(x for p in got for x in p) == tuple(us[:n])
                    k += judge(rep, S, R2, SITE + 'partition_dumps', '%s of %d files of unknown sizes, file limit %d' % (kind, n, max_files), '%d files, file limit %d' % (n, max_files),
                               rets, raises, Pred('every resource once, in order', ok))
        rep.absorb(S.ip, 'unknown sizes', k)
    scenario(rep, 'unknown sizes', go)

    def go():
        S = Driver(prog, DUMP, 'DUMP', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        k = 0
        for n in (0, 1, 2, 3, 5):
            for sizes in [(1,) * n, (10,) * n, (6,) * n]:
                for max_files in (1, 2, 100):
                    for sep in (None, True, False):
                        for kind in ('list', 'resources') if n in (2, 3) else ('list',):
                            for base in ('/out/d_', '/out/x'):
                                st = S.state()
                                us = uris(S, st, max(n, 1))
                                files = ['/data/%d' % i for i in range(n)]
                                es = [{'uri': us[i], 'path': C(files[i])} for i in range(n)]
                                rets, raises = S.call('dump', [kind, es, dict(zip(files, sizes)), {}, {'max_size': 10, 'max_files': max_files}, C(base), sep], st)
                                ps = divide(sizes, 10, max_files)

                                def ok(S, st, got, us=us, ps=ps, base=base):
                                    names = [a[0] for a in got]
                                    if len(set(names)) != len(names) or any(x[0] != 'c' or not x[2].startswith(base) for x in names) or len(got) != len(ps):
                                        return False
                                    for (name, a), p in zip(got, ps):
                                        if a[0] != C('archive') or sorted((e[0] for e in a[1]), key=repr) != sorted(((us[i],) for i in p), key=repr):
                                            return False
                                        if sorted((m[1] for m in a[2]), key=repr) != sorted(((C('content of'), C('/data/%d' % i)) for i in p), key=repr):
                                            return False
                                        if not str(name[2])[len(base):].split('.')[0].isdigit():
                                            return False
                                    return True

                                def oks(S, st, got, us=us, ps=ps, sep=sep):
                                    if sep is False:
                                        return got == ()
                                    return len(got) == len(ps) and all(sorted((e[0] for e in g[1]), key=repr) == sorted(((us[i],) for i in p), key=repr) and g[2] == C(1)
                                                                       for g, p in zip(got, ps)) and len(set(g[0] for g in got)) == len(ps)
                                k += judge(rep, S, R3, SITE + 'write', '%s of %d files of sizes %s, limits 10 and %d, separate manifests %s' % (kind, n, sizes, max_files, sep),
                                           '%d files, file limit %d' % (n, max_files), rets, raises,
                                           (C('written'), C(len(ps)), Pred('one archive for each of %s' % ps, ok), Pred('manifests of %s' % ps, oks), (), ()))
        rep.absorb(S.ip, 'archives', k)
    scenario(rep, 'archives', go)
