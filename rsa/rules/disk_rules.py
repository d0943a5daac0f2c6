"""Rules about files on disk: digests (C38), scans (C37)."""
import itertools

from ..state import C, mk_eq, show
from ..drive import Driver, judge, Pred
from ..stubs import FILES, XML, TIMES, LOGS
from .common import scenario

TYPES = ('md5', 'sha-1', 'sha-256')
ATT = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
BAD = ('sha1', 'sha256', 'MD5', 'SHA-1', 'sha-512', 'md5 ', 'sha-2', 'crc32', '', 'md4', 'sha_1', 'md')

HASHES = '''
from resync.hashes import Hashes
from resync.client import Client


def compute(types, files, way):
    for f in files:
        FILES[f] = []
    if way == 'at once':
        h = Hashes(types, files[0])
    else:
        h = Hashes(types)
        h.compute_for_file(files[0])
    for f in files[1:]:
        h.compute_for_file(f)
    r = Resource(uri='http://example.org/x')
    h.set(r)
    return r.md5, r.sha1, r.sha256, h.md5, h.sha1, h.sha256


def kept(types, file):
    """A type not asked for is left alone."""
    FILES[file] = []
    r = Resource(uri='http://example.org/x', md5='m', sha1='s', sha256='t')
    Hashes(types, file).set(r)
    return r.md5, r.sha1, r.sha256


def refused(types, late):
    FILES['f'] = []
    if late:
        h = Hashes(types)
        h.compute_for_file('f')
    else:
        Hashes(types, 'f')
    return 'accepted'


def text(md5, sha1, sha256):
    return Resource(uri='http://example.org/x', md5=md5, sha1=sha1, sha256=sha256).hash


def assigned(text, before):
    r = Resource(uri='http://example.org/x')
    if before:
        r.md5 = 'old'
        r.sha1 = 'old'
        r.sha256 = 'old'
    try:
        r.hash = text
        told = False
    except ValueError:
        told = True
    return r.md5, r.sha1, r.sha256, told


def read(text):
    root = Element('{http://www.sitemaps.org/schemas/sitemap/0.9}urlset')
    u = Element('{http://www.sitemaps.org/schemas/sitemap/0.9}url')
    loc = Element('{http://www.sitemaps.org/schemas/sitemap/0.9}loc')
    loc.text = 'http://example.org/x'
    md = Element('{http://www.openarchives.org/rs/terms/}md', {'hash': text})
    u.append(loc)
    u.append(md)
    root.append(u)
    s = Sitemap()
    LOG.clear()
    b = list(s.parse_xml(etree=ElementTree(root)))
    told = ('warning',) in LOG
    return len(b), b[0].md5, b[0].sha1, b[0].sha256, told


def written(md5, sha1, sha256):
    x = Sitemap().resource_as_xml(Resource(uri='http://example.org/x', md5=md5, sha1=sha1, sha256=sha256))
    e = x.root if isinstance(x, Markup) else x
    found = [k.attrib['hash'] for k in e.kids if 'hash' in k.attrib]
    return found


def listed(name, sets):
    l = {'ResourceList': ResourceList, 'ChangeList': ChangeList, 'ResourceDump': ResourceDump, 'ChangeDump': ChangeDump,
         'ResourceDumpManifest': ResourceDumpManifest, 'ChangeDumpManifest': ChangeDumpManifest}[name]()
    n = 0
    for s in sets:
        n += 1
        l.add(Resource(uri='http://example.org/x' + str(n), timestamp=n, change='updated', **s))
    return l.hashes()


def pruned(wanted, used):
    c = Client(hashes=wanted)
    before = set(c.hashes)
    c.prune_hashes(used, 'resource')
    return before, c.hashes
'''


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from itertools.combinations(xs, n)


def digest(t, f):
    return '%s of %s part 1%s part 2' % (ATT[t], f, f)


def rule_C38(prog, rep, tier):
    R = rep.rule('compute', 'Every set of types, given in any order and repeated, for one file and for several in turn: each digest is of its own algorithm over the entire file, and nothing else is set.')
    R2 = rep.rule('refuse', 'An unsupported type anywhere among the requested ones is an error.')
    R3 = rep.rule('text', 'The hash text of a resource, and reading it back, by assignment and in a document: the same type has the same prefix and attribute, in any order; others are ignored with a warning.')
    R4 = rep.rule('types in use', 'The types a list uses are those of its entries, and the client keeps the wanted types among these.')
    site = 'resync.hashes.Hashes'

    def go():
        S = Driver(prog, HASHES, 'HASHES', budget=2000000, subst=(FILES,))
        n = 0
        for ts in subsets(TYPES):
            for order in set(itertools.permutations(ts)) | {tuple(ts) + tuple(ts[:1])}:
                for files in (('f',), ('f', 'g'), ('f', 'g', 'f')):
                    for way in ('at once', 'later'):
                        if len(files) > 1 and order != ts:
                            continue
                        st = S.state()
                        want = tuple(digest(t, files[-1]) if t in ts else None for t in TYPES)
                        rets, raises = S.call('compute', [list(order), list(files), way], st)
                        n += judge(rep, S, R, site, '%s of %s, %s' % (list(order), files, way), 'types %s, %d files' % ('+'.join(ts), len(files)), rets, raises, want + want)
            rets, raises = S.call('kept', [list(ts), 'f'], S.state())
            n += judge(rep, S, R, site, '%s for a resource with digests' % (ts,), 'types %s, digests present' % '+'.join(ts), rets, raises,
                       tuple(digest(t, 'f') if t in ts else o for t, o in zip(TYPES, 'mst')))
        rep.absorb(S.ip, 'compute', n)
    scenario(rep, 'compute', go)

    def go():
        S = Driver(prog, HASHES, 'HASHES', budget=2000000, subst=(FILES,))
        n = 0
        for bad in BAD:
            for good in subsets(TYPES):
                for at in range(len(good) + 1):
                    for late in (False, True):
                        rets, raises = S.call('refused', [list(good[:at]) + [bad] + list(good[at:]), late], S.state())
                        n += judge(rep, S, R2, site, '%r among %s' % (bad, good), 'type %r' % bad, rets, raises, None, error={'builtins.Exception'})
        rep.absorb(S.ip, 'refuse', n)
    scenario(rep, 'refuse', go)

    def go():
        S = Driver(prog, HASHES, 'HASHES', budget=4000000, subst=(FILES, XML, TIMES, LOGS))
        n = 0
        site = 'resync.resource.Resource.hash'
        VAL = {'md5': 'aaa==', 'sha-1': 'b+/b', 'sha-256': 'ccc'}
        for ts in subsets(TYPES):
            want = tuple(VAL[t] if t in ts else None for t in TYPES)
            full = ' '.join('%s:%s' % (t, VAL[t]) for t in ts) or None
            rets, raises = S.call('text', list(want), S.state())
            n += judge(rep, S, R3, site, 'digests of %s' % (ts,), 'text of %s' % '+'.join(ts), rets, raises, full)
            rets, raises = S.call('written', list(want), S.state())
            n += judge(rep, S, R3, 'resync.sitemap.Sitemap.resource_etree_element', 'digests of %s' % (ts,), 'document with %s' % '+'.join(ts), rets, raises, (full,) if full else ())
            for extra in [()] + [(b,) for b in BAD if b.strip() == b and b]:
                for order in itertools.permutations(ts + extra):
                    t = ' '.join('%s:%s' % (x, VAL.get(x, 'zzz')) for x in order)
                    if not t:
                        continue
                    case = 'reading %r' % t
                    group = '%s, %s' % ('+'.join(ts), 'and ' + extra[0] if extra else 'alone')
                    for before in (False, True):
                        rets, raises = S.call('assigned', [t, before], S.state())
                        n += judge(rep, S, R3, site, 'assigning %r%s' % (t, ' over others' if before else ''), 'assigning ' + group, rets, raises, want + (bool(extra),))
                    rets, raises = S.call('read', [t], S.state())
                    n += judge(rep, S, R3, 'resync.sitemap.Sitemap.resource_from_etree', case, 'reading ' + group, rets, raises, (1,) + want + (bool(extra),))
        rep.absorb(S.ip, 'text', n)
    scenario(rep, 'text', go)

    def go():
        S = Driver(prog, HASHES, 'HASHES', budget=2000000, subst=(FILES, LOGS))
        n = 0
        every = list(subsets(TYPES))
        for cls in ('ResourceList', 'ChangeList', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest', 'ChangeDumpManifest'):
            for sets in [()] + [(a,) for a in every] + [(a, b) for a in every for b in every] + [((), a, ()) for a in every]:
                rets, raises = S.call('listed', [cls, [{ATT[t]: 'x' for t in s} for s in sets]], S.state())
                n += judge(rep, S, R4, 'resync.list_base_with_index.ListBaseWithIndex.hashes', '%s with entries with %s' % (cls, sets), '%s, %d entries' % (cls, len(sets)), rets, raises,
                           frozenset(C(t) for s in sets for t in s))
        for a in every:
            for b in every:
                st = S.state()
                used = S.ip.new_list(st, None, tuple(C(x) for x in b), 'set')
                rets, raises = S.call('pruned', [list(a), used], st)
                n += judge(rep, S, R4, 'resync.client.Client.prune_hashes', 'wanted %s, used %s' % (a, b), 'wanted %s' % '+'.join(a), rets, raises,
                           (frozenset(C(x) for x in a), frozenset(C(x) for x in a if x in b)))
        rep.absorb(S.ip, 'types in use', n)
    scenario(rep, 'types in use', go)


SCAN = '''
from resync.resource_list_builder import ResourceListBuilder
from resync.client import Client, ClientFatalError


def tree(files, dirs, links, gone, unreadable):
    for d in dirs:
        DIRS.append(d)
    for f in files:
        SIZES[f] = 0 if f.endswith('zero') else ('length of', f)
    for l in links:
        LINKS.append(l)
    for f in gone:
        FAIL.append(f)
    for f in unreadable:
        NOREAD.append(f)
    LOG.clear()


def values(rl):
    out = {}
    n = 0
    for r in rl:
        n += 1
        out[r.uri] = (r.timestamp, r.length, r.md5, r.sha1, r.sha256, r.path, r.mime_type, r.change)
    return n, out, ('warning',) in LOG


def scan(layout, maps, paths, patterns, hashes, length, path, symlinks, old):
    tree(*layout)
    b = ResourceListBuilder(mapper=Mapper(maps), set_hashes=hashes, set_length=length, set_path=path)
    b.include_symlinks = symlinks
    for p in patterns:
        b.add_exclude_patterns(p)
    if old:
        rl = ResourceList()
        if old == 'one':
            rl.add(Resource('http://other.example.org/'))
        got = b.from_disk(rl, paths)
        if got is not rl:
            return 'another list'
        return values(rl)
    if paths is not None:
        return values(b.from_disk(paths=paths))
    return values(b.from_disk())


def client_scan(layout, maps, paths, patterns, hashes, path):
    tree(*layout)
    c = Client(hashes=hashes)
    c.set_mappings(maps)
    c.exclude_patterns = patterns
    return values(c.build_resource_list(paths=paths, set_path=path))


def bad_pattern(patterns, how):
    tree(['/d/f'], ['/d'], [], [], [])
    if how == 'client':
        c = Client()
        c.set_mappings(['http://example.org', '/d'])
        c.exclude_patterns = patterns
        try:
            c.build_resource_list()
        except ClientFatalError:
            return 'refused'
    else:
        b = ResourceListBuilder(mapper=Mapper(['http://example.org', '/d']))
        try:
            b.add_exclude_patterns(patterns)
        except ValueError:
            return 'refused'
    return 'accepted'
'''


def scanned(layout, maps, paths, patterns, symlinks):
    """The files a scan should list: [(path, URI)]."""
    import re
    files, dirs, links, gone, unreadable = layout
    starts = paths if paths is not None else [d for _, d in maps]

    def excluded(name):
        return any(re.match(p, name) for ps in patterns for p in ps)
    out = []
    for f in list(files) + [l for l in links if l not in dirs and l not in files]:
        for s in starts:
            d = s.rstrip('/')
            if f == d:
                rel = [f]
            elif f.startswith(d + '/'):
                rel = f[len(d) + 1:].split('/')
            else:
                continue
            if any(excluded(x) for x in rel):
                continue
            if any(f.startswith(l + '/') for l in links):
                continue
            if f in links and not symlinks:
                continue
            if f in gone or f not in files:
                continue
            uri = [u.rstrip('/') + f[len(m.rstrip('/')):] for u, m in maps if f == m.rstrip('/') or f.startswith(m.rstrip('/') + '/')][0]
            out.append((f, uri))
    return out


def rule_C37(prog, rep, tier):
    R = rep.rule('eligible', 'Directory trees with nested and empty directories, all kinds of names, links and start paths, with each set of exclude patterns: exactly the eligible files are listed.')
    R2 = rep.rule('attributes', 'Every combination of the settings: the attributes of each entry are the requested ones, of its own file.')
    R3 = rep.rule('vanishing', 'Any of the files gone when examined, or unreadable when hashed: the others are listed, with a warning.')
    R4 = rep.rule('bad patterns', 'A pattern that is not a regular expression is refused.')
    site = 'resync.resource_list_builder.ResourceListBuilder'

    def want(layout, maps, paths, patterns, hashes, length, path, symlinks, old, warned=None):
        d = {}
        hashes = hashes or ()
        for f, uri in scanned(layout, maps, paths, patterns, symlinks):
            if hashes and f in layout[4]:
                continue
            d[uri] = (C(0) if f.endswith('epoch') else (C('mtime of'), C(f), C(True)), (C(0) if f.endswith('zero') else (C('length of'), C(f))) if length else None) + tuple(digest(t, f) if t in hashes else None for t in TYPES) + (f if path else None, None, None)
        if old == 'one':
            d['http://other.example.org/'] = (None,) * 8
        return (len(d), d, Pred('a warning', lambda S, st, g: warned is None or g == C(warned)))

    def flat(maps):
        return ['%s=%s' % m for m in maps]

    TREE = (['/d/a', '/d/b.tmp', '/d/sub/c', '/d/sub/b.tmp', '/d/sub/deep/a', '/d/skip/x', '/d/skip2/y', '/d/skip3/skip/z', '/d/.hidden', '/d/with space & more', '/d/sub/a', '/d/sub/UPPER.TMP', '/d2/a', '/dd/a'],
            ['/d', '/d/sub', '/d/sub/deep', '/d/skip', '/d/skip2', '/d/skip3', '/d/skip3/skip', '/d/empty', '/d2', '/dd'], [], [], [])
    MAPS = {'one map': [('http://example.org', '/d')], 'slashes': [('http://example.org/', '/d/')], 'two maps': [('http://example.org', '/d'), ('http://example.net/x', '/d2')],
            'similar names': [('http://example.org', '/d'), ('http://example.org/dd', '/dd')]}
    PATTERNS = {'none': [], 'suffix': [[r'.*\.tmp$']], 'prefix of a name': [['b']], 'directory': [['skip$']], 'adjacent directories': [['skip']], 'two patterns': [['skip', 'sub']], 'in two calls': [['skip'], [r'.*\.tmp']],
                'one letter': [['a$']], 'everything': [['.*']], 'not at the start': [['kip', 'mp']], 'hidden': [[r'\.']], 'path': [['/d/sub']], 'nothing matches': [['xyz', 'abc']]}

    def go(mname):
        S = Driver(prog, SCAN, 'SCAN', budget=9000000, subst=(FILES, LOGS))
        n = 0
        maps = MAPS[mname]
        for pname, patterns in PATTERNS.items():
            for paths in (None, ['/d/sub'], ['/d/sub/', '/d/skip'], ['/d/a', '/d/sub/c'], ['/d/skip3', '/d/empty'], ['/d/skip']):
                if paths is not None and pname in ('everything', 'one letter', 'path'):
                    continue
                if paths is not None and mname not in ('one map', 'slashes'):
                    continue
                a = (maps, paths, patterns)
                rets, raises = S.call('scan', [tuple(TREE), flat(maps), paths, patterns, None, True, False, False, False], S.state())
                n += judge(rep, S, R, site, '%s, exclude %s, paths %s' % (mname, pname, paths), '%s, exclude %s' % (mname, pname), rets, raises,
                           want(TREE, *a, None, True, False, False, False))
                if len(patterns) < 2 and paths in (None, ['/d/sub/', '/d/skip']):
                    rets, raises = S.call('client_scan', [tuple(TREE), flat(maps), ','.join(paths) if paths else None, patterns[0] if patterns else [], [], False], S.state())
                    n += judge(rep, S, R, 'resync.client.Client.build_resource_list', 'client, %s, exclude %s, paths %s' % (mname, pname, paths), 'client, %s, exclude %s' % (mname, pname), rets, raises,
                               want(TREE, *a, None, True, False, False, False))
        rep.absorb(S.ip, mname, n)
    for mname in MAPS:
        scenario(rep, mname, go, mname)

    def go():
        S = Driver(prog, SCAN, 'SCAN', budget=9000000, subst=(FILES, LOGS))
        n = 0
        maps = MAPS['one map']
        files = ['/d/a', '/d/b', '/d/sub/c', '/d/real/e', '/d/z']
        dirs = ['/d', '/d/sub', '/d/real', '/d/linked', '/d/linked/deep']
        for links in subsets(['/d/a', '/d/sub/c', '/d/z', '/d/sub/broken', '/d/linked']):
            t = (files + ['/d/linked/e', '/d/linked/deep/e'], dirs, list(links), [], [])
            for symlinks in (False, True):
                if symlinks and '/d/linked' in links:
                    continue
                for old in (False, 'empty', 'one'):
                    a = (maps, None, [], None, True, False, symlinks, old)
                    rets, raises = S.call('scan', [tuple(t), flat(maps), None, [], None, True, False, symlinks, old], S.state())
                    n += judge(rep, S, R, site, 'links %s%s%s' % (links, ', included' if symlinks else '', ', added to a list' if old else ''),
                               '%d links%s%s' % (len(links), ', included' if symlinks else '', ', added to a list' if old else ''), rets, raises, want(t, *a))
        rep.absorb(S.ip, 'links', n)
    scenario(rep, 'links', go)

    def go():
        S = Driver(prog, SCAN, 'SCAN', budget=9000000, subst=(FILES, LOGS))
        n = 0
        maps = MAPS['one map']
        t = (['/d/a', '/d/sub/a', '/d/sub/b', '/d/sub/zero', '/d/epoch'], ['/d', '/d/sub'], [], [], [])
        for hashes in [None] + list(subsets(TYPES)):
            for length in (False, True):
                for path in (False, True):
                    for old in (False, 'empty', 'one'):
                        h = None if hashes is None else list(hashes)
                        a = (maps, None, [], hashes, length, path, False, old)
                        rets, raises = S.call('scan', [tuple(t), flat(maps), None, [], h, length, path, False, old], S.state())
                        n += judge(rep, S, R2, site, 'hashes %s, length %s, path %s%s' % (hashes, length, path, ', added to a list' if old else ''), 'hashes %s' % '+'.join(hashes or ()), rets, raises, want(t, *a))
                    if length and hashes is not None:
                        rets, raises = S.call('client_scan', [tuple(t), flat(maps), None, [], list(hashes), path], S.state())
                        n += judge(rep, S, R2, 'resync.client.Client.build_resource_list', 'client, hashes %s, path %s' % (hashes, path), 'client, hashes %s' % '+'.join(hashes), rets, raises,
                                   want(t, maps, None, [], hashes, True, path, False, False))
        rep.absorb(S.ip, 'attributes', n)
    scenario(rep, 'attributes', go)

    def go():
        S = Driver(prog, SCAN, 'SCAN', budget=9000000, subst=(FILES, LOGS))
        n = 0
        maps = MAPS['one map']
        files = ['/d/a', '/d/b', '/d/sub/a', '/d/sub/c']
        for gone in subsets(files):
            for bad in subsets([f for f in files if f not in gone]) if len(gone) < 2 else [()]:
                t = (files, ['/d', '/d/sub'], [], list(gone), list(bad))
                for hashes in ((), ('md5',), TYPES):
                    a = (maps, None, [], hashes, True, True, False, False)
                    rets, raises = S.call('scan', [tuple(t), flat(maps), None, [], list(hashes), True, True, False, False], S.state())
                    n += judge(rep, S, R3, site, 'gone %s, unreadable %s, hashes %s' % (gone, bad, hashes), '%d gone, %d unreadable, hashes %s' % (len(gone), len(bad), '+'.join(hashes)), rets, raises,
                               want(t, *a, warned=bool(gone or bad and hashes)))
        rep.absorb(S.ip, 'vanishing', n)
    scenario(rep, 'vanishing', go)

    def go():
        S = Driver(prog, SCAN, 'SCAN', budget=900000, subst=(FILES, LOGS))
        n = 0
        for bad in ('(', '*a', '[a', 'a)', '(?P<x'):
            for ps in ([bad], ['a', bad], [bad, 'a']):
                for how in ('client', 'builder'):
                    rets, raises = S.call('bad_pattern', [ps, how], S.state())
                    n += judge(rep, S, R4, site + '._compile_excludes', '%s, patterns %r' % (how, ps), how, rets, raises, 'refused')
        rep.absorb(S.ip, 'bad patterns', n)
    scenario(rep, 'bad patterns', go)
