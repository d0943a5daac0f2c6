"""Rules about lists split over several documents: C27, C28."""
import itertools

from ..state import C, show
from ..drive import Driver, judge, Pred
from ..stubs import XML, TIMES, FILES, PAGES
from .common import scenario
from .list_rules import uris
from .xml_rules import SM, RS, w3c, el
from .doc_rules import DOC, CAPABILITY, FREE, SORTED, EXTRA, cls, options

SPLIT = DOC + '''
def opened(how):
    return [x[1] for x in LOG if x[0] == 'open' and x[2][0:1] != 'r']


def events(parts):
    """What is wrong with the order of events, given the names of the parts."""
    wrong = []
    closed = []
    for x in LOG:
        if x[0] == 'close':
            closed.append(x[1])
        elif x[0] == 'open' and x[2][0:1] != 'r':
            if x[1] == '/out/list.xml':
                for p in parts:
                    if p not in closed:
                        wrong.append('index opened before %s was closed' % p)
            elif '/out/list.xml' in closed:
                wrong.append('%s opened after the index' % x[1])
        elif x[0] == 'stat' or x[0] == 'open':
            if x[1] not in closed:
                wrong.append('%s measured before it was closed' % x[1])
    for x in LOG:
        if x[0] == 'open' and x[2][0:1] != 'r' and x[1] not in closed:
            wrong.append('%s not closed' % x[1])
    return wrong


def entries_of(m):
    return [[k.text for k in e.kids if k.tag == 'loc'] for e in m.root.kids if e.tag == 'url' or e.tag == 'sitemap']


def made(cls, opts, entries, add, limit, allow, maps):
    x = filled(cls, opts, entries, add, False)
    x.max_sitemap_entries = limit
    if allow is not None:
        x.allow_multifile = allow
    x.mapper = Mapper(maps)
    return x


def split(cls, opts, entries, add, limit, allow, maps, fails, full):
    """The parts in the order of the index, what the index says about each."""
    x = made(cls, opts, entries, add, limit, allow, maps)
    for f in fails:
        FAIL.append(f)
    for f in full:
        FULL.append(f)
    try:
        x.write('/out/list.xml')
    except ListBaseIndexError:
        return 'refused', opened('w')
    except OSError:
        return 'failed', '/out/list.xml' in opened('w')
    index = written('/out/list.xml')
    if index[0] != 'sitemapindex':
        return 'single', [index[0], entries_of(FILES['/out/list.xml'][0]), opened('w'), events([])]
    names = [n for n in FILES if n != '/out/list.xml']
    said = []
    for e in index[4]:
        loc = [k[1] for k in e[3] if k[0] == 'loc']
        lastmod = [k[1] for k in e[3] if k[0] == 'lastmod']
        hashes = [k[2]['hash'] for k in e[3] if k[0] == 'rs:md' and 'hash' in k[2]]
        said.append((loc, lastmod, hashes))
    return 'split', names, [(written(n)[0], entries_of(FILES[n][0])) for n in names], said, opened('w'), events(names)


def again(cls, opts, entries, add, limit, allow, maps):
    x = made(cls, opts, entries, add, limit, allow, maps)
    x.write('/out/list.xml')
    FILES.clear()
    x.write('/out/list.xml')
    return [e for n in FILES if n != '/out/list.xml' for e in entries_of(FILES[n][0])]


def text(cls, opts, entries, add, limit, part):
    """The index and the parts as strings."""
    x = filled(cls, opts, entries, add, False)
    x.max_sitemap_entries = limit
    n = x.requires_multifile()
    if part is not None:
        return entries_of(x.as_xml_part('http://example.org/list.xml', part))
    index = x.as_xml_index('http://example.org/list.xml')
    parts = [entries_of(x.as_xml_part('http://example.org/list.xml', i)) for i in range(n)]
    return n, index.root.tag, entries_of(index), [e for p in parts for e in p], [len(p) > 0 and len(p) <= limit for p in parts]


def refused(cls, opts, entries, add, limit):
    x = filled(cls, opts, entries, add, False)
    x.max_sitemap_entries = limit
    return x.as_xml()
'''

MAPS = [['http://example.org/', '/out/'], ['http://example.org/=/out'], ['http://other.org/x/=/other', 'http://example.org/deep/dir=/out/']]
BASES = ['http://example.org/', 'http://example.org/', 'http://example.org/deep/dir/']

FULL = ('ResourceList', 'ChangeList', 'ListBaseWithIndex')


def chunked(names, us, limit, base, S, st):
    """Requirement on ('split', names, parts, said, opened, events)."""
    def ok(S, st, got):
        if not isinstance(got, tuple) or len(got) != 6 or got[0] != C('split'):
            return False
        _, names, parts, said, opened, wrong = got
        if wrong != ():
            return False
        if len(set(names)) != len(names) or len(names) != len(said):
            return False
        if sorted(show(x) for x in opened) != sorted([show(x) for x in names] + [show(C('/out/list.xml'))]):
            return False
        by = dict(zip(names, parts))
        seq = []
        for loc, lastmod, hashes in said:
            if len(loc) != 1 or loc[0][0] != 'c' or not str(loc[0][2]).startswith(base):
                return False
            name = C('/out/' + loc[0][2][len(base):])
            if name not in by:
                return False
            tag, es = by.pop(name)
            if tag != C('urlset') or not 0 < len(es) <= limit:
                return False
            seq += es
            if lastmod != (w3c(S, st, ('tup', (C('mtime of'), name, C(True)))),):
                return False
            if hashes != (C('md5:md5 of %s part 1%s part 2' % (name[2], name[2])),):
                return False
        return not by and tuple(seq) == tuple((u,) for u in us)
    return Pred('the entries in order in parts of at most %d, each closed, measured and then named by the index with its digest and time, the index last' % limit, ok)


def rule_C27(prog, rep, tier):
    R = rep.rule('parts', """Every class with indexes, number of entries, limit, order of adding, mapping: the parts named by the index, in its order, hold all
        entries in iteration order, none more than the limit; each is closed before it is measured; the index gives its mapped URI, time and
        digest and is opened after all parts were closed.""")
    R2 = rep.rule('refused', 'With multi-file output disabled there is an error and no file is opened for writing.')
    R3 = rep.rule('failed', 'When a part cannot be written there is an error and no index is written.')
    R4 = rep.rule('strings', 'Index and parts as strings: as many parts as the index names, all entries in order; no part beyond the last; no single document.')
    R5 = rep.rule('single', 'Lists within the limit are written as one document with every entry.')
    names = [n for n in list(CAPABILITY) + list(FREE) if n not in ('ListBase', 'CapabilityList')]
    site = 'resync.list_base_with_index.ListBaseWithIndex.write'
    anything = Pred('anything', lambda S, st, got: True)
    for name in names:
        def go(name=name):
            S = Driver(prog, SPLIT, 'SPLIT', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, name)
            paths = 0
            full = name in FULL
            sizes = range(0, 6) if full else (1, 3, 5)
            for n in sizes:
                orders = [tuple(range(n)), tuple(range(n))[::-1]] if n > 1 else [tuple(range(n))]
                if name not in SORTED and n > 2:
                    orders = [tuple(range(n)), tuple(range(n - 1)) + (0,)]
                for limit in (1, 2, 3, 4, 5, None) if full else (1, 2, 3):
                    multi = limit is not None and n > limit
                    for order in orders if multi or full else orders[:1]:
                        for add in ('add', 'generator') if name not in SORTED and n > 1 and full else ('add',):
                            for m, maps in enumerate(MAPS):
                                if m and not (multi and order == orders[0] and add == 'add'):
                                    continue
                                for version in ('1.1', '1.0') if m == 1 else (None,):
                                    st = S.state()
                                    us = uris(S, st, max(n, 1))[:n]
                                    entries = [(dict(EXTRA.get(name, {}), uri=us[i]), []) for i in order]
                                    opts = options(name, spec_version=version) if version else options(name)
                                    seq = [us[i] for i in (sorted(order) if name in SORTED else order)]
                                    rets, raises = S.call('split', [k, opts, entries, add, limit, True if m else None, maps, [], []], st)
                                    if multi:
                                        want = chunked(names, seq, limit, BASES[m], S, st)
                                    else:
                                        want = (C('single'), (C('urlset'), tuple((u,) for u in seq), (C('/out/list.xml'),), ()))
                                    paths += judge(rep, S, R if multi else R5, site, '%s with entries %s (%s), limit %s%s' % (name, order, add, limit, ', mapping %d' % m if m else ''),
                                                   '%s, %d entries, limit %s' % (name, n, limit), rets, raises, want)
            rep.absorb(S.ip, 'parts of ' + name, paths)
        scenario(rep, 'parts of ' + name, go)

        def go(name=name):
            S = Driver(prog, SPLIT, 'SPLIT', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, name)
            paths = 0
            for n, limit in ((2, 1), (3, 1), (3, 2), (5, 2), (4, 2), (5, 1)) if name in FULL else ((2, 1), (3, 2), (3, 1)):
                for add in ('add', 'generator') if name not in SORTED else ('add',):
                    def new():
                        st = S.state()
                        us = uris(S, st, n)
                        return st, us, [(dict(EXTRA.get(name, {}), uri=u), []) for u in us]
                    st, us, entries = new()
                    rets, raises = S.call('split', [k, options(name), entries, add, limit, False, MAPS[0], [], []], st)
                    paths += judge(rep, S, R2, site, '%s with %d entries (%s), limit %s, multi-file output disabled' % (name, n, add, limit),
                                   '%s, %d entries, limit %d' % (name, n, limit), rets, raises, (C('refused'), ()))
                    st, us, entries = new()
                    rets, raises = S.call('split', [k, options(name), entries, add, limit, True, ['http://example.org/=/elsewhere'], [], []], st)
                    paths += judge(rep, S, R3, site, '%s with %d entries (%s), limit %s, no mapping for the index' % (name, n, add, limit),
                                   '%s, %d entries, limit %d, no mapping' % (name, n, limit), rets, raises, (C('refused'), anything))
                    for i in range((n + limit - 1) // limit):
                        for full in (False, True):
                            st, us, entries = new()
                            part = '/out/list%05d.xml' % i
                            rets, raises = S.call('split', [k, options(name), entries, add, limit, True, MAPS[0], [] if full else [part], [part] if full else []], st)
                            paths += judge(rep, S, R3, site, '%s with %d entries (%s), limit %s, part %d fails%s' % (name, n, add, limit, i, ' when written to' if full else ''),
                                           '%s, %d entries, limit %d, part %d' % (name, n, limit, i), rets, raises, (C('failed'), C(False)))
            rep.absorb(S.ip, 'refused and failing writes of ' + name, paths)
        scenario(rep, 'refused and failing writes of ' + name, go)

        def go(name=name):
            S = Driver(prog, SPLIT, 'SPLIT', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, name)
            paths = 0
            st0 = 'resync.list_base_with_index.ListBaseWithIndex.as_xml_part'
            for n in range(2, 6) if name in FULL else (2, 3, 5):
                for limit in range(1, n) if name in FULL else (1, 2, 4):
                    if limit >= n:
                        continue
                    orders = [tuple(range(n))] + ([tuple(range(n))[::-1]] if name in SORTED else [tuple(range(n - 1)) + (0,)])
                    count = (n + limit - 1) // limit
                    for order in orders:
                        st = S.state()
                        us = uris(S, st, n)
                        seq = [us[i] for i in (sorted(order) if name in SORTED else order)]
                        entries = [(dict(EXTRA.get(name, {}), uri=us[i]), []) for i in order]
                        rets, raises = S.call('text', [k, options(name), entries, 'add', limit, None], st)
                        distinct = Pred('%d different URIs' % count, lambda S, st, got: isinstance(got, tuple) and len(got) == count == len(set(got)))
                        paths += judge(rep, S, R4, st0, '%s with entries %s, limit %s' % (name, order, limit), '%s, %d entries, limit %d' % (name, n, limit), rets, raises,
                                       (C(count), C('sitemapindex'), distinct, tuple((u,) for u in seq), (C(True),) * count))
                    for part in (count, count + 1):
                        st = S.state()
                        entries = [(dict(EXTRA.get(name, {}), uri=u), []) for u in uris(S, st, n)]
                        rets, raises = S.call('text', [k, options(name), entries, 'add', limit, part], st)
                        paths += judge(rep, S, R4, st0, '%s with %d entries, limit %d, part %d' % (name, n, limit, part), '%s, %d entries, limit %d, too far' % (name, n, limit), rets, raises,
                                       None, error=('resync.list_base_with_index.ListBaseIndexError',))
                    st = S.state()
                    entries = [(dict(EXTRA.get(name, {}), uri=u), []) for u in uris(S, st, n)]
                    rets, raises = S.call('refused', [k, options(name), entries, 'add', limit], st)
                    paths += judge(rep, S, R4, 'resync.list_base_with_index.ListBaseWithIndex.as_xml', '%s with %d entries, limit %d as one string' % (name, n, limit),
                                   '%s, %d entries, limit %d, one string' % (name, n, limit), rets, raises, None, error=('resync.list_base_with_index.ListBaseIndexError',))
                    if name in ('ResourceList', 'ChangeList'):
                        st = S.state()
                        us = uris(S, st, n)
                        entries = [(dict(EXTRA.get(name, {}), uri=u), []) for u in us]
                        rets, raises = S.call('again', [k, options(name), entries, 'add', limit, True, MAPS[0]], st)
                        paths += judge(rep, S, R, site, '%s with %d entries, limit %d written again' % (name, n, limit), '%s, %d entries, limit %d, again' % (name, n, limit), rets, raises,
                                       tuple((u,) for u in us))
            rep.absorb(S.ip, 'strings of ' + name, paths)
        scenario(rep, 'strings of ' + name, go)


# ---------------------------------------------------------------------- C28

INDEX = DOC + '''
def component(name, uris, extra, how):
    if how == 'unreadable':
        PAGES[name] = None
        return
    if how == 'missing':
        return
    if how == 'malformed':
        PAGES[name] = 'not XML'
        return
    if how == 'index':
        root = Element(SM + 'sitemapindex')
        root.append(entry(SM + 'sitemap', [(SM + 'loc', 'http://example.org/nested.xml', {})]))
        PAGES['http://example.org/nested.xml'] = ElementTree(Element(SM + 'urlset'))
        PAGES[name] = ElementTree(root)
        return
    if how == 'no length':
        NOLENGTH.append(name)
    root = Element(SM + 'urlset')
    if how == 'bare':
        pass
    else:
        root.append(Element(RS + 'ln', {'rel': 'index', 'href': 'http://example.org/list.xml'}))
        root.append(Element(RS + 'md', {'capability': 'resourcelist', 'at': 'x'}))
    for u in uris:
        e = entry(SM + 'url', [(SM + 'loc', u, {})])
        if extra:
            e.append(Element(RS + 'md', extra))
        root.append(e)
    PAGES[name] = ElementTree(root)


def index(cls, opts, source, listed, comps, maps, allow, only):
    i = Element(SM + 'sitemapindex')
    x = cls(**opts)
    i.append(Element(RS + 'md', {'capability': x.capability_name} if x.capability_name else {}))
    for u in listed:
        i.append(entry(SM + 'sitemap', [(SM + 'loc', u, {})]))
    PAGES[source] = ElementTree(i)
    for name, uris, extra, how in comps:
        component(name, uris, extra, how)
    if maps:
        x.mapper = Mapper(maps)
    if allow is not None:
        x.allow_multifile = allow
    got = 'read'
    try:
        if only:
            x.read(source, index_only=True)
        else:
            x.read(source)
    except ListBaseIndexError:
        got = 'refused'
    return got, [r.uri for r in x] if got == 'read' else None, [e[1] for e in LOG if e[0] == 'read']


def tries(cls, opts, source, listed, comps, maps):
    """Any error will do."""
    got = 'read'
    try:
        got = index(cls, opts, source, listed, comps, maps, True, False)[0]
        if got == 'refused':
            got = 'error'
    except Exception:
        got = 'error'
    return got
'''


def same(us, what):
    """Exactly the given values, in any order."""
    want = sorted(us, key=repr)
    return Pred(what, lambda S, st, got: isinstance(got, tuple) and sorted(got, key=repr) == want)


def partial(prog, rep, R):
    """Source lists of up to three parts, one of which cannot be read."""
    def go(k):
        S = Driver(prog, INDEX, 'INDEX', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        n = 0
        extra = EXTRA.get('ResourceList', {})
        for source, maps, where in (('http://example.org/list.xml', MAPS[0], lambda i: ('http://example.org/part%d.xml' % i,) * 2),
                                    ('/out/list.xml', MAPS[0], lambda i: ('http://example.org/part%d.xml' % i, '/out/part%d.xml' % i))):
            for bad in range(k):
                for how in ('unreadable', 'missing', 'malformed', 'index'):
                    st = S.state()
                    us = uris(S, st, k)
                    comps = [(where(i)[1], [us[i]], extra, how if i == bad else 'plain') for i in range(k)]
                    rets, raises = S.call('tries', [cls(prog, 'ResourceList'), {}, source, [where(i)[0] for i in range(k)], comps, maps], st)
                    n += judge(rep, S, R, 'resync.list_base_with_index.ListBaseWithIndex.read_component_sitemap', 'from %s, part %d of %d %s' % (source, bad, k, how),
                               'from %s, %s part' % (source, how), rets, raises, C('error'))
        rep.absorb(S.ip, 'list in %d parts' % k, n)
    for k in (1, 2, 3):
        scenario(rep, 'list in %d parts' % k, go, k)


def rule_C28(prog, rep, tier):
    R = rep.rule('components', """Indexes of up to three components of up to two entries, remote or local, with and without mapping, with and without known
        length and metadata of the components: every component is read once, from the mapped place, and all entries are there.""")
    R2 = rep.rule('unreadable', 'A component that cannot be opened, is not XML or is an index is an error, at every position.')
    R3 = rep.rule('settings', 'With multi-file support disabled an index is refused and no component read; reading only the index reads nothing else.')
    site = 'resync.list_base_with_index.ListBaseWithIndex.read'
    LISTDICT, ORDERED, SET = cls(prog, 'ResourceListDict'), cls(prog, 'ResourceListOrdered'), cls(prog, 'ResourceSet')
    KINDS = [('ResourceList', {}), ('ResourceList', {'resources_class': ORDERED}),
             ('ResourceList', {'resources_class': LISTDICT}), ('ResourceList', {'resources_class': SET}), ('ListBaseWithIndex', {'capability_name': 'resourcelist'}),
             ('ResourceDump', {}), ('ResourceListArchive', {})]
    anything = Pred('anything', lambda S, st, got: True)
    # index, mapping, place of a component -> where it is to be read
    PLACES = [
        ('http://example.org/list.xml', None, lambda i: ('http://example.org/part%d.xml' % i,) * 2),
        ('https://example.org/list.xml', MAPS[0], lambda i: ('https://example.org/p/part%d.xml' % i,) * 2),
        ('http://example.org/x/list.xml', MAPS[0], lambda i: ('http://host%d.example.com/part.xml' % i,) * 2),
        ('/out/list.xml', MAPS[0], lambda i: ('http://example.org/a%d/part.xml' % i, '/out/a%d/part.xml' % i)),
        ('out/list.xml', MAPS[0], lambda i: ('http://example.org/part%d.xml' % (9 - i), '/out/part%d.xml' % (9 - i))),
        ('file:///out/list.xml', MAPS[1], lambda i: ('http://example.org/part%d.xml' % i, '/out/part%d.xml' % i)),
        ('https://example.org/list.xml', MAPS[0], lambda i: ('http://example.org/part%d.xml' % i,) * 2),
        ('http://example.org/list.xml', MAPS[0], lambda i: ('https://example.org/part%d.xml' % i,) * 2),
        ('/out/list.xml', ['https://example.org', '/out'], lambda i: ('https://example.org/part%d.xml' % i, '/out/part%d.xml' % i)),
        ('/out/list.xml', MAPS[0], lambda i: ('/elsewhere/part%d.xml' % i,) * 2),
        ('/out/list.xml', MAPS[0], lambda i: ('file:///elsewhere/part%d.xml' % i,) * 2),
        ('/out/list.xml', MAPS[2], lambda i: [('http://example.org/deep/dir/part.xml', '/out/part.xml'), ('http://other.org/x/part.xml', '/other/part.xml'),
                                              ('/out/dir/part.xml', '/out/dir/part.xml')][i]),
    ]
    for kind, opts in KINDS:
        label = kind + (' of %s' % show(opts['resources_class']) if 'resources_class' in opts else '')

        def go(kind=kind, opts=opts, label=label):
            S = Driver(prog, INDEX, 'INDEX', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, kind)
            extra = EXTRA.get(kind, {})
            main = kind == 'ResourceList'
            paths = 0
            for p, (source, maps, place) in enumerate(PLACES):
                for sizes in [()] + [(a,) for a in range(3)] + [(0, 1), (1, 0), (2, 1), (1, 1), (1, 1, 1), (2, 0, 1), (0, 0, 2), (2, 2, 2)]:
                    if not main and len(sizes) + p > 3:
                        continue
                    for order in itertools.permutations(range(len(sizes))) if p < 4 and main else [tuple(range(len(sizes)))]:
                        for how in ('plain', 'no length', 'bare') if len(sizes) == 2 else ('plain',):
                            st = S.state()
                            us = uris(S, st, max(sum(sizes), 1))[:sum(sizes)]
                            left = list(us)
                            comps, listed = [], []
                            for i in order:
                                loc, where = place(i)
                                listed.append(loc)
                                comps.append((where, [left.pop() for _ in range(sizes[i])], extra, how))
                            rets, raises = S.call('index', [k, dict(opts), source, listed, comps, maps, None, False], st)
                            want = ('read', same(us, 'every entry'), same([C(source)] + [C(c[0]) for c in comps], 'the index and every component once'))
                            paths += judge(rep, S, R, site, '%s from %s, components %s in order %s%s, %s' % (label, source, sizes, order, ', mapped' if maps else '', how),
                                           '%s from %s, %d components' % (label, source, len(sizes)), rets, raises, want)
                # components that cannot be read
                for n in (1, 2, 3):
                    if not main and p > 3 or n == 3 and p not in (0, 3):
                        continue
                    for bad in range(n):
                        for how in ('unreadable', 'missing', 'malformed', 'index'):
                            st = S.state()
                            us = uris(S, st, n)
                            comps = [(place(i)[1], [us[i]], extra, how if i == bad else 'plain') for i in range(n)]
                            rets, raises = S.call('tries', [k, dict(opts), source, [place(i)[0] for i in range(n)], comps, maps], st)
                            paths += judge(rep, S, R2, 'resync.list_base_with_index.ListBaseWithIndex.read_component_sitemap',
                                           '%s from %s, component %d of %d %s' % (label, source, bad, n, how), '%s from %s, %s component' % (label, source, how), rets, raises, C('error'))
                # settings
                for n in range(3):
                    for allow, only in ((False, False), (False, True), (True, True), (None, True)):
                        st = S.state()
                        us = uris(S, st, max(n, 1))[:n]
                        comps = [(place(i)[1], [us[i]], extra, 'plain') for i in range(n)]
                        rets, raises = S.call('index', [k, dict(opts), source, [place(i)[0] for i in range(n)], comps, maps, allow, only], st)
                        want = ('refused' if allow is False else 'read', anything, (C(source),))
                        paths += judge(rep, S, R3, site, '%s from %s, %d components, allow_multifile=%s%s' % (label, source, n, allow, ', index only' if only else ''),
                                       '%s from %s, allow_multifile=%s%s' % (label, source, allow, ', index only' if only else ''), rets, raises, want)
                st = S.state()
                rets, raises = S.call('tries', [k, dict(opts), 'http://example.org/none.xml', [], [('http://example.org/none.xml', [], {}, 'unreadable')], maps], st)
                paths += judge(rep, S, R2, site, '%s from an unreadable index' % label, '%s, unreadable index' % label, rets, raises, C('error'))
            rep.absorb(S.ip, 'index of ' + label, paths)
        scenario(rep, 'index of ' + label, go)
