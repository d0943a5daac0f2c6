"""Rules about whole documents: what every class writes and insists on."""
import itertools

from ..state import C, show
from ..drive import Driver, judge, Pred
from ..stubs import XML, TIMES, FILES, PAGES
from ..model import AnchorError
from .common import scenario
from .list_rules import uris
from .xml_rules import COMMON, ROOTS, SM, RS, w3c, el, good

DOC = COMMON + '''
def shape(m):
    """What a document consists of."""
    if not isinstance(m, Markup):
        return ('not made by the serializer', m)
    r = m.root
    mds = []
    lns = []
    items = []
    late = False
    for k in r.kids:
        if k.tag == 'rs:md':
            mds.append(dict(k.attrib))
            late = late or len(items) > 0
        elif k.tag == 'rs:ln':
            lns.append(dict(k.attrib))
            late = late or len(items) > 0
        else:
            items.append(plain(k))
    return (r.tag, dict(r.attrib), mds, lns, items, late)


def written(name):
    chunks = FILES[name]
    if len(chunks) != 1:
        return ('written in pieces', len(chunks))
    return shape(chunks[0])


def out(x, how):
    if how == 'as_xml':
        return shape(x.as_xml())
    if how == 'index_as_xml':
        return shape(x.index_as_xml())
    if how == 'write' or how == 'write index':
        x.write('/out/list.xml')
        return written('/out/list.xml')
    if how == 'sitemap':
        return shape(x.new_sitemap().resources_as_xml(x))
    if how == 'sitemap index':
        return shape(x.new_sitemap().resources_as_xml(x, sitemapindex=True))
    if how == 'parts':
        x.max_sitemap_entries = 1
        return [shape(x.as_xml_part('/out/list.xml', i)) for i in range(len(x))]
    if how == 'as_xml_index':
        x.max_sitemap_entries = 1
        return shape(x.as_xml_index('http://example.org/list.xml'))
    if how == 'as_xml multi':
        x.max_sitemap_entries = 1
        return shape(x.as_xml(allow_multifile=True, basename='http://example.org/list.xml'))
    if how == 'write multi':
        x.max_sitemap_entries = 1
        x.mapper = Mapper(['http://example.org/', '/out/'])
        x.write('/out/list.xml')
        return [written(n) for n in FILES if n != '/out/list.xml'], written('/out/list.xml')


def gen(rs):
    for r in rs:
        yield r


def filled(cls, opts, entries, add, index):
    rs = []
    for atts, lns in entries:
        r = Resource(**atts)
        if lns:
            r.ln = lns
        rs.append(r)
    if add == 'resources':
        x = cls(resources=rs, **opts)
    elif add == 'generator':
        x = cls(resources=gen(rs), **opts)
    else:
        x = cls(**opts)
        if add == 'add all':
            x.add(rs)
        else:
            for r in rs:
                x.add(r)
    if index:
        x.sitemapindex = True
    return x


def document(cls, opts, entries, add, how, index, pretty):
    x = filled(cls, opts, entries, add, index)
    if pretty:
        x.pretty_xml = True
    return out(x, how)


def twice(cls, opts, entries, add, how, index, pretty):
    """A second document of the same object."""
    x = filled(cls, opts, entries, add, index)
    out(x, how)
    return out(x, how)


def container(entries, kind, index, fh):
    rs = [Resource(uri=u) for u in entries]
    if kind == 'generator':
        rs = gen(rs)
    elif kind == 'set':
        s = ResourceSet()
        for r in rs:
            s.add(r)
        rs = s
    elif kind == 'iterator':
        rs = iter(rs)
    elif kind == 'tuple':
        rs = tuple(rs)
    s = Sitemap()
    if fh:
        f = open_file('/out/list.xml', 'w')
        s.resources_as_xml(rs, sitemapindex=index, fh=f)
        f.close()
        return written('/out/list.xml')
    return shape(s.resources_as_xml(rs, sitemapindex=index))


def lone(uri, lns):
    r = Resource(uri=uri)
    r.ln = lns
    m = Sitemap().resource_as_xml(r)
    if not isinstance(m, Markup):
        return ('not made by the serializer', m)
    return plain(m.root)


def tree(spec):
    e = Element(spec[0], spec[2])
    e.text = spec[1]
    for k in spec[3]:
        e.append(tree(k))
    return e


def reading(cls, opts, spec, via):
    t = ElementTree(tree(spec))
    x = cls(**opts)
    if via == 'str':
        x.parse(str_data=t)
    elif via == 'fh':
        f = File('x', 'r')
        f.chunks = [t]
        x.parse(fh=f)
    elif via == 'component':
        md = {'capability': x.capability_name} if x.capability_name else {}
        i = Element(SM + 'sitemapindex')
        i.append(Element(RS + 'md', md))
        i.append(entry(SM + 'sitemap', [(SM + 'loc', 'http://example.org/part.xml', {})]))
        PAGES['http://example.org/list.xml'] = ElementTree(i)
        PAGES['http://example.org/part.xml'] = t
        x.read('http://example.org/list.xml')
    else:
        PAGES['http://example.org/list.xml'] = t
        if via == 'parse uri':
            x.parse(uri='http://example.org/list.xml')
        elif via == 'index only':
            x.read('http://example.org/list.xml', index_only=True)
        else:
            x.read('http://example.org/list.xml')
    return x.capability, [(r.uri, r.timestamp, r.ts_datetime) for r in x], x.ln


def trip(cls, opts, entries, via):
    """What one object writes, another of the class reads."""
    a = filled(cls, opts, entries, 'add', False)
    m = a.as_xml()
    x = cls()
    if via == 'str':
        x.parse(str_data=m)
    else:
        PAGES['http://example.org/list.xml'] = m
        x.read('http://example.org/list.xml')
    return x.capability
'''

CAPABILITY = {'ResourceList': 'resourcelist', 'ChangeList': 'changelist', 'CapabilityList': 'capabilitylist', 'SourceDescription': 'description',
              'ResourceDump': 'resourcedump', 'ResourceDumpManifest': 'resourcedump-manifest', 'ChangeDump': 'changedump',
              'ChangeDumpManifest': 'changedump-manifest', 'ResourceListArchive': 'resourcelist-archive',
              'ChangeListArchive': 'changelist-archive', 'ResourceDumpArchive': 'resourcedump-archive', 'ChangeDumpArchive': 'changedump-archive'}
OPTIONS = DOC + '''
def effect(cls, opts, storage, mapper):
    """Every setting as it is in effect on the constructed object."""
    if storage is not None:
        rs = storage()
        for u in ('http://example.org/a', 'http://example.org/b'):
            r = Resource(uri=u, change='updated', capability='resourcelist')
            if isinstance(rs, list):
                rs.append(r)
            else:
                rs.add(r)
        opts['resources'] = rs
    if mapper is not None:
        opts['mapper'] = mapper
    x = cls(**opts)
    s = x.new_sitemap()
    return {'resources': [r.uri for r in x.resources], 'same': storage is None or x.resources is rs,
            'iterated': [r.uri for r in x], 'md': dict(x.md), 'ln': x.ln, 'uri': x.uri,
            'mapper': getattr(x, 'mapper', None), 'allow_multifile': getattr(x, 'allow_multifile', None),
            'spec_1_0': s.spec_1_0, 'add_lastmod': s.add_lastmod, 'count': len(x), 'storage': type(x.resources), 'capability': x.capability_name}


def filling(cls, opts, n):
    """Two objects made alike, the first filled; the storage of the second."""
    x = cls(**opts)
    for i in range(n):
        x.add(Resource(uri='http://example.org/%d' % i, change='updated', capability='resourcelist'))
    y = cls(**opts)
    return type(x.resources), len(x), type(y.resources), len(y)


def pretty(cls, opts, how, on):
    x = filled(cls, opts, [({'uri': 'http://example.org/a', 'change': 'updated', 'capability': 'resourcelist'}, []),
                           ({'uri': 'http://example.org/b', 'change': 'updated', 'capability': 'resourcelist'}, [])], 'add', False)
    x.pretty_xml = on
    if how == 'as_xml':
        m = x.as_xml()
    elif how == 'index_as_xml':
        m = x.index_as_xml()
    elif how == 'as_xml_index':
        x.max_sitemap_entries = 1
        m = x.as_xml_index('http://example.org/list.xml')
    elif how == 'part':
        x.max_sitemap_entries = 1
        m = x.as_xml_part('http://example.org/list.xml', 1)
    elif how == 'write':
        x.write('/out/list.xml')
        m = FILES['/out/list.xml'][0]
    else:
        x.max_sitemap_entries = 1
        x.mapper = Mapper(['http://example.org/', '/out/'])
        x.write('/out/list.xml')
        return [(FILES[n][0].root.text, [k.tail for k in FILES[n][0].root.kids]) for n in FILES]
    return m.root.text, [k.tail for k in m.root.kids]
'''

FREE = {'ListBase': 'some', 'ListBaseWithIndex': 'some'}
SORTED = ('ResourceList', 'ResourceDump', 'ResourceDumpManifest', 'ChangeDump', 'CapabilityList', 'SourceDescription')
ONE_FILE = ('ListBase', 'CapabilityList')
EXTRA = {'ChangeList': {'change': C('updated')}, 'ChangeDumpManifest': {'change': C('updated')}, 'CapabilityList': {'capability': C('resourcelist')}, 'SourceDescription': {'capability': C('capabilitylist')}}
MD_EXTRA = {}


def cls(prog, name):
    found = [c for q, c in prog.classes.items() if q.startswith('resync.') and c.name == name]
    if len(found) != 1:
        raise AnchorError('class %s' % name)
    return ('cls', found[0].qualname)


def anchor(prog, name, fn):
    """The function of that name the class uses."""
    f = prog.lookup(prog.classes[cls(prog, name)[1]], fn) if hasattr(prog, 'lookup') else None
    return f.qualname if f is not None else 'resync.' + name + '.' + fn


def item(uri, name, lns=(), prefix='url', md=None, lastmod=None):
    """The element of an entry."""
    kids = [('loc', uri, {}, ())]
    if lastmod is not None:
        kids.append(('lastmod', lastmod, {}, ()))
    x = dict(md or {})
    for k, v in EXTRA.get(name, {}).items():
        x[k] = v
    if x:
        kids.append(('rs:md', C(None), x, ()))
    for l in lns:
        kids.append(('rs:ln', C(None), l, ()))
    return (prefix, C(None), {}, tuple(kids))


RELS = ('alternate', 'duplicate', 'duplicate')


# ---------------------------------------------------------------------- C40

def rule_C40(prog, rep, tier):
    R = rep.rule('content', """Every class, number of entries, order of adding, way of adding, writer: the document is made by the serializer and has
        the elements of its kind, metadata and links first, then one element per resource in iteration order.""")
    R2 = rep.rule('containers', 'Plain lists, iterators, generators, sets handed to the serializer.')
    R3 = rep.rule('again', 'Writing once more gives the same document.')
    names = list(CAPABILITY) + list(FREE)
    for name in names:
        def go(name=name):
            S = Driver(prog, DOC, 'DOC', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, name)
            paths = 0
            writers = ['as_xml', 'write', 'sitemap', 'sitemap index'] + ([] if name in ONE_FILE else ['index_as_xml'])
            for n in range(4):
                orders = list(itertools.permutations(range(n)))
                if name not in SORTED and n == 3:
                    orders = [(0, 1, 2), (2, 0, 1), (0, 1, 0), (1, 1, 1)]
                elif n == 3:
                    orders = [(0, 1, 2), (2, 1, 0), (1, 2, 0)]
                for order in orders:
                    for add in ('add', 'add all', 'resources', 'generator'):
                        if add in ('resources', 'generator') and (name in SORTED or n == 0):
                            continue
                        for how in writers:
                            if n == 3 and how not in ('as_xml', 'write') or add == 'generator' and n == 1:
                                continue
                            for index in (False, True) if how in ('as_xml', 'write') else (False,):
                                pretty = n == 2 and order[0] == 0
                                for fn in ('document', 'twice') if n == 2 and add == 'add' else ('document',):
                                    st = S.state()
                                    us = uris(S, st, max(n, 1))
                                    lns = [[{'rel': C(RELS[j]) if n == 3 else S.value(st, 'rel%d%d' % (i, j)), 'href': S.value(st, 'href%d%d' % (i, j))} for j in range(i + 1 if n == 3 else i)] for i in range(n)]
                                    entries = [(dict(EXTRA.get(name, {}), uri=us[i]), lns[i]) for i in order]
                                    md = {'md_at': S.value(st, 'at')} if n != 1 else {}
                                    ln = [{'rel': S.value(st, 'rel'), 'href': S.value(st, 'href')}, {'rel': C('up'), 'href': S.value(st, 'up')}] if n != 2 else []
                                    opts = {}
                                    if md:
                                        opts['md'] = md
                                    if ln:
                                        opts['ln'] = ln
                                    if name in FREE:
                                        opts['capability_name'] = FREE[name]
                                    if add == 'generator' and name == 'ListBaseWithIndex' and how in ('as_xml',):
                                        opts['count'] = n
                                    if add == 'generator' and name not in FREE and how == 'as_xml':
                                        continue
                                    if add == 'generator' and (fn == 'twice' or name == 'ListBase' and False):
                                        continue
                                    rets, raises = S.call(fn, [k, opts, entries, add, how, index, pretty], st)
                                    isindex = index or how in ('sitemap index', 'index_as_xml')
                                    seq = sorted(order) if name in SORTED else order
                                    wmd = {'capability': C(CAPABILITY.get(name) or FREE[name])} if how not in ('sitemap', 'sitemap index') else {}
                                    if md:
                                        wmd['at'] = md['md_at']
                                    want = ('sitemapindex' if isindex else 'urlset', ROOTS, (wmd,) if wmd else (),
                                            tuple(ln), tuple(item(us[i], name, lns[i], 'sitemap' if isindex else 'url') for i in seq), C(False))
                                    paths += judge(rep, S, R3 if fn == 'twice' else R, 'resync.sitemap.Sitemap.resources_as_xml',
                                                   '%s of %s by %s%s, entries %s (%s)' % (how, name, add, ', index' if index else '', order, 'pretty' if pretty else 'plain'),
                                                   '%s of %s, %d entries%s' % (how, name, n, ', index' if index else ''), rets, raises, want)
            rep.absorb(S.ip, 'documents of ' + name, paths)
        scenario(rep, 'documents of ' + name, go)

    def go():
        S = Driver(prog, DOC, 'DOC', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
        paths = 0
        for kind in ('list', 'tuple', 'generator', 'iterator', 'set'):
            for n in range(4):
                for index in (False, True):
                    for fh in (False, True):
                        st = S.state()
                        us = uris(S, st, max(n, 1))[:n]
                        rets, raises = S.call('container', [us, kind, index, fh], st)
                        want = ('sitemapindex' if index else 'urlset', ROOTS, (), (), tuple(item(u, '', (), 'sitemap' if index else 'url') for u in us), C(False))
                        paths += judge(rep, S, R2, 'resync.sitemap.Sitemap.resources_as_xml', '%s of %d entries%s' % (kind, n, ', index' if index else ''),
                                       '%s, %d entries' % (kind, n), rets, raises, want)
        for n in range(4):
            st = S.state()
            u = S.value(st, 'uri')
            lns = [{'rel': C(RELS[j]) if n == 3 else S.value(st, 'rel%d' % j), 'href': S.value(st, 'href%d' % j)} for j in range(n)]
            rets, raises = S.call('lone', [u, lns], st)
            paths += judge(rep, S, R2, 'resync.sitemap.Sitemap.resource_as_xml', 'one entry with %d links' % n, 'one entry', rets, raises, item(u, '', lns))
        rep.absorb(S.ip, 'containers', paths)
    scenario(rep, 'containers', go)


def driver(prog):
    return Driver(prog, DOC, 'DOC', budget=4000000, subst=(XML, TIMES, FILES, PAGES))


def options(name, **opts):
    if name in FREE:
        opts['capability_name'] = FREE[name]
    return opts


# ---------------------------------------------------------------------- C31

def rule_C31(prog, rep, tier):
    R = rep.rule('written', """Entries with and without modification time and change time, mixed, in every class, version setting, add_lastmod setting and
        writer: lastmod and datetime are as the version says.""")
    R2 = rep.rule('read', 'Documents with and without lastmod and datetime, every class, version and reader: the times set are as the version says.')
    SETTINGS = [dict(spec_version=v, add_lastmod=a) for v in ('1.0', '1.1') for a in (False, True)] + [{}, {'add_lastmod': True}, {'spec_version': '1.0'}]
    COMBOS = [(False, False), (True, False), (False, True), (True, True)]
    for name in list(CAPABILITY) + list(FREE):
        def go(name=name):
            S = driver(prog)
            k = cls(prog, name)
            paths = 0
            writers = ['as_xml', 'write', 'sitemap', 'sitemap index', 'index'] + ([] if name in ONE_FILE else ['index_as_xml', 'parts', 'write multi'])
            for opts in SETTINGS:
                old = opts.get('spec_version') == '1.0'
                for rev in (False, True):
                    for how in writers[:1] if rev else writers:
                        st = S.state()
                        us = uris(S, st, 4)
                        entries, want = [], []
                        for u, (ts, dt) in zip(us, COMBOS[::-1] if rev else COMBOS):
                            a = dict(EXTRA.get(name, {}), uri=u)
                            lm = None
                            md = {}
                            if dt:
                                a['ts_datetime'] = S.value(st, 'datetime of ' + u[1], 'float')
                                if old or opts.get('add_lastmod'):
                                    lm = w3c(S, st, a['ts_datetime'])
                                if not old:
                                    md['datetime'] = w3c(S, st, a['ts_datetime'])
                            if ts:
                                a['timestamp'] = S.value(st, 'timestamp of ' + u[1], 'float')
                                lm = w3c(S, st, a['timestamp'])
                            if rev:
                                # the other times of an entry are not its modification time
                                for t in ('at', 'completed', 'from', 'until'):
                                    a['ts_' + t] = S.value(st, t + ' of ' + u[1], 'float')
                                    md[t] = w3c(S, st, a['ts_' + t])
                            entries.append((a, []))
                            want.append(item(u, name, (), 'sitemap' if how in ('sitemap index', 'index_as_xml', 'index') else 'url', md, lm))
                        rets, raises = S.call('document', [k, options(name, **opts), entries, 'add', 'as_xml' if how == 'index' else how, how == 'index', False], st)
                        any_ = Pred('anything', lambda S, st, got: True)
                        one = lambda ws: (any_, any_, any_, any_, tuple(ws), any_)
                        w = one(want)
                        if how == 'parts':
                            w = tuple(one([x]) for x in want)
                        elif how == 'write multi':
                            w = (tuple(one([x]) for x in want), any_)
                        paths += judge(rep, S, R, 'resync.sitemap.Sitemap.resource_etree_element',
                                       '%s of %s with %s%s' % (how, name, ', '.join('%s=%s' % x for x in sorted(opts.items())) or 'default settings', ', reversed' if rev else ''),
                                       '%s of %s with %s' % (how, name, ', '.join('%s=%s' % x for x in sorted(opts.items()))), rets, raises, w)
            rep.absorb(S.ip, 'times written in ' + name, paths)
        scenario(rep, 'times written in ' + name, go)

        def go(name=name):
            S = driver(prog)
            k = cls(prog, name)
            paths = 0
            for opts in SETTINGS:
                if opts.get('add_lastmod') and 'spec_version' in opts and opts['spec_version'] == '1.0':
                    continue
                old = opts.get('spec_version') == '1.0'
                readers = ['str', 'fh', 'parse uri', 'read']
                if name not in ONE_FILE + ('ChangeList', 'ChangeDumpManifest'):
                    readers += ['component']
                for via in readers:
                    for rev in (False, True) if via == 'str' else (False,):
                        st = S.state()
                        us = uris(S, st, 4)
                        es, want = [], []
                        for u, (lm, dt) in zip(us, COMBOS[::-1] if rev else COMBOS):
                            kids = [el(SM + 'loc', text=u)]
                            t, d = C(None), C(None)
                            if lm:
                                t = S.value(st, 'lastmod of ' + u[1], 'float')
                                kids.append(el(SM + 'lastmod', text=w3c(S, st, t)))
                            md = dict(EXTRA.get(name, {}))
                            if dt:
                                v = S.value(st, 'datetime of ' + u[1], 'float')
                                md['datetime'] = w3c(S, st, v)
                                if not old:
                                    d = v
                            if md:
                                kids.append(el(RS + 'md', md))
                            es.append(el(SM + 'url', kids=kids))
                            want.append((u, t, d))
                        doc = el(SM + 'urlset', kids=[el(RS + 'md', {'capability': CAPABILITY.get(name) or FREE[name]})] + es)
                        rets, raises = S.call('reading', [k, options(name, **opts), doc, via], st)
                        any_ = Pred('anything', lambda S, st, got: True)
                        paths += judge(rep, S, R2, 'resync.sitemap.Sitemap.resource_from_etree',
                                       '%s of %s with %s%s' % (via, name, ', '.join('%s=%s' % x for x in sorted(opts.items())) or 'default settings', ', reversed' if rev else ''),
                                       '%s of %s with %s' % (via, name, ', '.join('%s=%s' % x for x in sorted(opts.items()))), rets, raises, (any_, tuple(want), any_))
            rep.absorb(S.ip, 'times read in ' + name, paths)
        scenario(rep, 'times read in ' + name, go)


# ---------------------------------------------------------------------- C29

def rule_C29(prog, rep, tier):
    R = rep.rule('written', 'Every class and writer, with and without other metadata: the top level states the capability of the class, in parts and indexes too.')
    R2 = rep.rule('read', """Documents stating the right, every other, an unknown or no capability, read into each class by every reader: only the right one
        (or none for a resource list) is accepted.""")
    any_ = Pred('anything', lambda S, st, got: True)
    for name in CAPABILITY:
        def go(name=name):
            S = driver(prog)
            k = cls(prog, name)
            paths = 0
            writers = ['as_xml', 'write'] + ([] if name in ONE_FILE else ['index_as_xml', 'parts', 'as_xml_index', 'as_xml multi', 'write multi'])
            for how in writers:
                for index in (False, True) if how in ('as_xml', 'write') else (False,):
                    for meta in ((), ('md_at',), ('md_from', 'md_until'), ('md_completed', 'md_at')):
                        for links in (0, 1):
                            for n in (0, 2) if how in ('as_xml', 'write', 'index_as_xml') else (2,):
                                for fn in ('document', 'twice') if not links and not meta else ('document',):
                                    st = S.state()
                                    us = uris(S, st, 2)
                                    md = {a: S.value(st, a) for a in meta}
                                    opts = {}
                                    if md:
                                        opts['md'] = md
                                    if links:
                                        opts['ln'] = [{'rel': C('up'), 'href': S.value(st, 'up')}]
                                    entries = [(dict(EXTRA.get(name, {}), uri=u), []) for u in us[:n]]
                                    rets, raises = S.call(fn, [k, opts, entries, 'add', how, index, False], st)
                                    wmd = {'capability': C(CAPABILITY[name])}
                                    for a in md:
                                        wmd[a[3:]] = md[a]
                                    one = (any_, any_, (wmd,), any_, any_, any_)
                                    w = one
                                    if how == 'parts':
                                        w = (one, one)
                                    elif how == 'write multi':
                                        w = ((one, one), one)
                                    paths += judge(rep, S, R, 'resync.resource_container.ResourceContainer.default_capability',
                                                   '%s of %s%s, metadata %s, %d links, %d entries%s' % (how, name, ', index' if index else '', ','.join(meta) or 'none', links, n,
                                                                                                      ', second time' if fn == 'twice' else ''),
                                                   '%s of %s%s' % (how, name, ', index' if index else ''), rets, raises, w)
            rep.absorb(S.ip, 'capability written by ' + name, paths)
        scenario(rep, 'capability written by ' + name, go)

        def go(name=name):
            S = driver(prog)
            k = cls(prog, name)
            paths = 0
            own = CAPABILITY[name]
            for via in ['str', 'fh', 'parse uri', 'read'] + ([] if name in ONE_FILE else ['index only']):
                for cap in [own] + [c for c in CAPABILITY.values() if c != own] + ['', 'unknown', None, 'no md']:
                    if cap == '' and own == 'resourcelist':
                        continue
                    for ln in (False, True):
                        st = S.state()
                        u = S.value(st, 'uri')
                        c = S.value(st, 'capability', 'str', tuple(CAPABILITY.values())) if cap == 'unknown' else cap
                        kids = [el(RS + 'ln', {'rel': 'up', 'href': S.value(st, 'up')})] if ln else []
                        if cap != 'no md':
                            kids.append(el(RS + 'md', {'at': S.value(st, 'at')} if cap is None else {'capability': c}))
                        elif ln:
                            kids.append(el(RS + 'md', {}))
                        e = [el(SM + 'loc', text=u)]
                        if name in EXTRA:
                            e.append(el(RS + 'md', EXTRA[name]))
                        kids.append(el(SM + ('sitemap' if via == 'index only' else 'url'), kids=e))
                        doc = el(SM + ('sitemapindex' if via == 'index only' else 'urlset'), kids=kids)
                        rets, raises = S.call('reading', [k, {}, doc, via], st)
                        ok = cap == own or cap in (None, 'no md') and own == 'resourcelist'
                        paths += judge(rep, S, R2, 'resync.sitemap.Sitemap.parse_xml', '%s into %s of a document with capability %s' % (via, name, cap),
                                       '%s into %s of %s' % (via, name, cap), rets, raises,
                                       (C(own), ((u, any_, any_),), any_), error=None if ok else ('builtins.Exception',))
            for via in ('str', 'read'):
                st = S.state()
                u = S.value(st, 'uri')
                rets, raises = S.call('trip', [k, {}, [(dict(EXTRA.get(name, {}), uri=u), [])], via], st)
                paths += judge(rep, S, R2, 'resync.sitemap.Sitemap.parse_xml', 'reading what %s writes (%s)' % (name, via), 'round trip of %s' % name, rets, raises, C(own))
            rep.absorb(S.ip, 'capability read by ' + name, paths)
        scenario(rep, 'capability read by ' + name, go)


# ---------------------------------------------------------------------- C30

BASIC = ('resources', 'md', 'ln', 'uri', 'spec_version', 'add_lastmod')
ACCEPTS = {
    'ListBase': BASIC + ('count', 'capability_name'),
    'ListBaseWithIndex': BASIC + ('count', 'capability_name', 'allow_multifile', 'mapper', 'resources_class'),
    'ResourceList': BASIC + ('count', 'allow_multifile', 'mapper', 'resources_class'),
    'ChangeList': BASIC + ('mapper', 'resources_class'),
    'CapabilityList': BASIC,
    'SourceDescription': ('resources', 'md', 'ln', 'spec_version', 'add_lastmod'),
    'ResourceDump': BASIC + ('allow_multifile', 'mapper'),
    'ResourceDumpManifest': BASIC + ('allow_multifile', 'mapper'),
    'ChangeDump': BASIC + ('allow_multifile', 'mapper'),
    'ChangeDumpManifest': BASIC + ('allow_multifile', 'mapper'),
}
for _n in ('ResourceListArchive', 'ChangeListArchive', 'ResourceDumpArchive', 'ChangeDumpArchive'):
    ACCEPTS[_n] = BASIC + ('resources_class',)


def rule_C30(prog, rep, tier):
    R = rep.rule('in-effect', """Every class, each option alone, all together and all but each, every value of flags: all settings of the constructed object
        are the given ones, all others the defaults.""")
    R2 = rep.rule('storage', 'A given storage class is used, for every object anew.')
    R3 = rep.rule('pretty', 'The setting for readable output reaches every writer.')
    any_ = Pred('anything', lambda S, st, got: True)
    LISTDICT, ORDERED, SET = cls(prog, 'ResourceListDict'), cls(prog, 'ResourceListOrdered'), cls(prog, 'ResourceSet')
    LIST = ('ext', 'builtins.list')
    for name in ACCEPTS:
        init = prog.classes[cls(prog, name)[1]].find('__init__')
        site = init[1].qualname if init is not None and init[0] == 'method' else name

        def go(name=name, site=site):
            S = Driver(prog, OPTIONS, 'OPTIONS', budget=4000000, subst=(XML, TIMES, FILES, PAGES))
            k = cls(prog, name)
            paths = 0
            accepts = ACCEPTS[name]
            extra = [o for o in ACCEPTS['ListBaseWithIndex'] if o not in accepts]
            flags = {'add_lastmod': (True, False), 'allow_multifile': (True, False, None), 'count': (7, 0), 'spec_version': ('1.0', '1.1')}
            default = {'CapabilityList': cls(prog, 'CapabilitySet'), 'SourceDescription': SET, 'ResourceList': LISTDICT, 'ResourceDump': LISTDICT,
                       'ResourceDumpManifest': LISTDICT, 'ChangeDump': LISTDICT}.get(name, LIST)
            stores = [LIST, LISTDICT, ORDERED, SET] if name not in ('CapabilityList',) else [cls(prog, 'CapabilitySet'), LISTDICT]
            cases = [()] + [(o,) for o in accepts] + [tuple(accepts)] + [tuple(x for x in accepts if x != o) for o in accepts]
            cases += [(o,) for o in extra]
            for case in cases:
                fl = [o for o in case if o in flags]
                grids = [dict(zip(fl, v)) for v in itertools.product(*[flags[o] for o in fl])]
                if len(fl) > 1:
                    grids = [dict((o, flags[o][i % len(flags[o])]) for o in fl) for i in (0, 1)]
                for grid in grids:
                    for store in stores if 'resources' in case and len(case) == 1 else stores[:1]:
                        st = S.state()
                        opts = dict(grid)
                        md = {'md_at': S.value(st, 'at'), 'md_until': S.value(st, 'until')} if 'md' in case else {}
                        ln = [{'rel': S.value(st, 'rel'), 'href': S.value(st, 'href')}] if 'ln' in case else []
                        if md:
                            opts['md'] = md
                        if ln:
                            opts['ln'] = ln
                        for o in ('uri', 'capability_name'):
                            if o in case:
                                opts[o] = S.value(st, 'given ' + o)
                        mapper = S.value(st, 'given mapper', None) if 'mapper' in case else None
                        if 'resources_class' in case:
                            opts['resources_class'] = ORDERED
                        has = 'resources' in case
                        two = (C('http://example.org/a'), C('http://example.org/b')) if has else ()
                        rets, raises = S.call('effect', [k, opts, store if has else None, mapper], st)
                        if len(case) == 1 and case[0] in extra:
                            # not an option of this class today: refusing it is fine
                            raises = [(s, e) for s, e in raises if not (e[0] == 'exc' and e[1] == 'builtins.TypeError')]
                            if not rets and not raises:
                                continue
                        wmd = dict(md)
                        if name == 'SourceDescription':
                            wmd['from'] = any_
                        w = {'resources': two, 'same': C(True), 'iterated': two, 'md': wmd, 'ln': tuple(ln), 'uri': opts.get('uri', C(None)),
                             'mapper': mapper if mapper is not None else any_,
                             'allow_multifile': any_ if name in ONE_FILE else C(True if opts.get('allow_multifile') is None else opts['allow_multifile']),
                             'spec_1_0': C(opts.get('spec_version') == '1.0'), 'add_lastmod': C(opts.get('add_lastmod', False)),
                             'count': C(opts.get('count', len(two))), 'storage': any_ if has else (ORDERED if 'resources_class' in case else default),
                             'capability': opts.get('capability_name', C(CAPABILITY[name]) if name in CAPABILITY else any_)}
                        paths += judge(rep, S, R, site, '%s(%s)%s' % (name, ', '.join('%s=%s' % (o, grid[o]) if o in grid else o for o in case),
                                                                    ' with %s' % show(store) if has else ''),
                                       '%s(%s)' % (name, ', '.join(case) if len(case) < 4 else 'all' if len(case) == len(accepts) else 'all but ' + ', '.join(
                                           o for o in accepts if o not in case)), rets, raises, w)
            if 'resources_class' in accepts:
                for store in [LIST, LISTDICT, ORDERED, SET]:
                    if store == LIST and name == 'ResourceList' or store != LIST and name in ('ChangeList', 'ChangeDumpManifest') or store != LIST and name not in ('ResourceList', 'ListBaseWithIndex'):
                        n = 0
                    else:
                        n = 2 if store == LIST or name == 'ResourceList' else 0
                    st = S.state()
                    rets, raises = S.call('filling', [k, {'resources_class': store}, n], st)
                    paths += judge(rep, S, R2, site, '%s(resources_class=%s)' % (name, show(store)), '%s with %s' % (name, show(store)), rets, raises,
                                   (store, C(n), store, C(0)))
            for how in ['as_xml', 'write'] + ([] if name in ONE_FILE else ['index_as_xml', 'as_xml_index', 'part', 'write multi']):
                for on, given in itertools.product((True, False), ({}, {'add_lastmod': True}, {'spec_version': '1.0'})):
                    st = S.state()
                    rets, raises = S.call('pretty', [k, options(name, **given), how, on], st)
                    nl = C(chr(10)) if on else C(None)
                    tails = Pred('line ends' if on else 'no line ends', lambda S, st, got, nl=nl: isinstance(got, tuple) and len(got) > 0 and all(x == nl for x in got))
                    one = (nl, tails)
                    w = one if how != 'write multi' else (one, one, one)
                    paths += judge(rep, S, R3, 'resync.list_base.ListBase.new_sitemap', '%s of %s%s, pretty_xml=%s' % (how, name, ''.join('(%s=%s)' % x for x in given.items()), on), '%s of %s' % (how, name), rets, raises, w)
            rep.absorb(S.ip, 'options of ' + name, paths)
        scenario(rep, 'options of ' + name, go)
