"""Rules about files being complete before they are relied on (C33)."""
import itertools

from ..state import C
from ..drive import Driver, judge, Pred
from ..stubs import XML, CLOCK, PAGES, FILES, LOGS, CONFIG
from .common import scenario
from .xml_rules import COMMON
from .doc_rules import CAPABILITY, ONE_FILE, EXTRA, cls

SOURCE = COMMON + '''
from resync.client import Client
from rsastub import open_uri
from resync.client_state import ClientState
from resync.resource_list_builder import ResourceListBuilder


def order():
    """What was open for writing when it should not have been: at the end, when measured, read, renamed, or listed by a file that was closed before it."""
    still = []
    bad = []
    n = 0
    for x in LOG:
        op = x[0]
        if op == 'open' and x[2][0:1] != 'r':
            still.append((x[1], n))
            n += 1
        elif op == 'close' and x[2][0:1] != 'r':
            mine = [s for s in still if s[0] == x[1]]
            if mine:
                still.remove(mine[0])
                for s in still:
                    if s[1] > mine[0][1] or x[1].endswith('.xml') and not s[0].endswith('.xml'):
                        bad.append(('left open', s[0], 'when closing', x[1]))
        else:
            for name in x[1:3]:
                for s in still:
                    if s[0] == name and op in ('open', 'stat', 'utime', 'rename', 'copy', 'remove'):
                        bad.append((op, name, 'before it is closed'))
    return [s[0] for s in still], bad, n


def lists(cls, extra, n, how, files):
    x = cls()
    for i in range(n):
        x.add(Resource(uri='http://example.org/' + str(i), **extra))
    if how == 'pretty':
        x.pretty_xml = True
    elif how == 'index':
        x.sitemapindex = True
    elif how == 'multi':
        x.max_sitemap_entries = 1
        x.mapper = Mapper(['http://example.org/', '/out/'])
    x.write('/out/list.xml')
    return order()


def dumps(kind, files, opts, again):
    rs = ResourceList() if kind == 'list' else ChangeList()
    for f in files:
        SIZES[f] = 10
        rs.add(Resource(uri='http://example.org' + f, path=f, change='created'))
    d = Dump(resources=rs, **opts)
    d.max_files = 1
    d.write('/out/dump')
    return order()


def dump_one(files):
    for f in files:
        SIZES[f] = 10
    rs = [Resource(uri='http://example.org' + f, path=f) for f in files]
    d = Dump(resources=rs)
    d.check_files()
    d.write_zip(rs, '/out/one.zip')
    return order()


def state(values, old):
    s = ClientState()
    if old:
        s.set_state('another', 1)
    for site, t in values:
        s.set_state(site, t)
    return order()


def fetched(atts, hashes, old, method):
    PAGES['http://example.org/a'] = 'content'
    SIZES['/dst/a'] = 7
    if not old:
        SIZES.clear()
    c = Client(hashes=hashes)
    c.last_timestamp = 0
    r = Resource(uri='http://example.org/a', **atts)
    if method == 'update':
        c.update_resource(r, '/dst/a', 'created')
    else:
        c.write_file('/dst/a', open_uri('http://example.org/a'))
    return order()


def built(op, outfile, args, opts, multi):
    for f in ('/dst/a', '/dst/b', '/dst/sub/c'):
        SIZES[f] = 10
    DIRS.append('/dst')
    DIRS.append('/dst/sub')
    c = Client()
    c.set_mappings(['http://example.org/', '/dst/'])
    for k, v in opts.items():
        setattr(c, k, set(v) if k == 'hashes' else v)
    ref = ElementTree(Element(SM + 'urlset'))
    ref.root.append(Element(RS + 'md', {'capability': 'resourcelist'}))
    for u in ('http://example.org/a', 'http://example.org/gone'):
        ref.root.append(entry(SM + 'url', [(SM + 'loc', u, {}), (SM + 'lastmod', '2012-01-01T00:00:00Z', {})]))
    PAGES['http://example.org/ref.xml'] = ref
    getattr(c, op)(outfile=outfile, **args)
    return order()


def synced(entries, have, changes, opts, op, args):
    for f in have:
        SIZES[f] = 10
    DIRS.append('/dst')
    rl = Element(SM + 'urlset')
    rl.append(Element(RS + 'md', {'capability': 'changelist' if changes else 'resourcelist'}))
    for u, ch in entries:
        PAGES[u] = 'content'
        e = entry(SM + 'url', [(SM + 'loc', u, {}), (SM + 'lastmod', '2012-01-01T00:00:00Z', {})])
        e.append(Element(RS + 'md', {'change': ch, 'length': '7', 'datetime': '2012-01-01T00:00:00Z'} if changes else {'length': '7'}))
        rl.append(e)
    PAGES['http://example.org/list.xml'] = ElementTree(rl)
    c = Client()
    c.set_mappings(['http://example.org/', '/dst/'])
    for k, v in opts.items():
        setattr(c, k, set(v) if k == 'hashes' else v)
    if not changes:
        c.sitemap_name = 'http://example.org/list.xml'
    getattr(c, op)(**args)
    return order()
'''


def rule_C33(prog, rep, tier):
    R = rep.rule('lists', 'Every class, as one document, pretty, as an index and in several files: the record of opening, closing, measuring and hashing.')
    R2 = rep.rule('dumps', 'Dumps of one to three archives, with and without an index document.')
    R3 = rep.rule('state', 'The state file, new and existing, with a time and without.')
    R4 = rep.rule('downloads', 'A stored download with and without time, length and digests, new and existing.')
    R5 = rep.rule('operations', 'Every writing operation of the client, from the command to the end.')

    def several(least):
        return Pred('at least %d files' % least, lambda S, st, got: True if got[0] == 'c' and got[2] >= least else False if got[0] == 'c' else None)

    def ok(least):
        return ((), (), several(least))

    def driver():
        return Driver(prog, SOURCE, 'WRITE', subst=(XML, CLOCK, PAGES, FILES, LOGS, CONFIG), budget=9000000)

    def go():
        S = driver()
        n = 0
        for name in CAPABILITY:
            for how in ('plain', 'pretty', 'index') + (() if name in ONE_FILE else ('multi',)):
                for k in (1, 3) if how != 'multi' else (2, 3, 4):
                    rets, raises = S.call('lists', [cls(prog, name), EXTRA.get(name, {}), k, how, ()])
                    n += judge(rep, S, R, 'resync.list_base.ListBase.write' if how != 'multi' else 'resync.list_base_with_index.ListBaseWithIndex.write', '%s, %s, %d entries' % (name, how, k),
                               '%s, %s' % (name, how), rets, raises, ok(k + 1 if how == 'multi' else 1))
        rep.absorb(S.ip, 'lists', n)
    scenario(rep, 'lists', go)

    def go():
        S = driver()
        n = 0
        for kind in ('list', 'changes'):
            for k in (1, 2, 3):
                fs = ['/f/%d' % i for i in range(k)]
                rets, raises = S.call('dumps', [kind, fs, {}, False])
                n += judge(rep, S, R2, 'resync.dump.Dump.write', '%s of %d archives' % (kind, k), 'dump of a ' + kind, rets, raises, ok(k))
        for k in (1, 2):
            rets, raises = S.call('dump_one', [['/f/%d' % i for i in range(k)]])
            n += judge(rep, S, R2, 'resync.dump.Dump.write_zip', 'an archive of %d files' % k, 'one archive', rets, raises, ok(1))
        for old in (False, True):
            for vals in ([('s', 5)], [('s', None)], [('s', 5), ('t', 6)], [('s', 5), ('s', None)], [('s', 5.25)]):
                rets, raises = S.call('state', [vals, old])
                n += judge(rep, S, R3, 'resync.client_state.ClientState.set_state', 'state %s, %s file' % (vals, 'existing' if old else 'new'), 'state file', rets, raises, ok(len(vals)))
        for a in itertools.product((None, 1000), (None, 7, 8), (None, 'md5', 'all'), (False, True), ('update', 'write')):
            atts = {}
            if a[0] is not None:
                atts['timestamp'] = a[0]
            if a[1] is not None:
                atts['length'] = a[1]
            hs = []
            if a[2]:
                atts['md5'] = 'x'
                hs = ['md5']
            if a[2] == 'all':
                atts['sha1'] = 'y'
                atts['sha256'] = 'z'
                hs = ['md5', 'sha-1', 'sha-256']
            rets, raises = S.call('fetched', [atts, hs, a[3], a[4]])
            n += judge(rep, S, R4, 'resync.client.Client.update_resource', 'download (%s) with %s%s' % (a[4], ', '.join(atts) or 'nothing', ', existing file' if a[3] else ''), 'download (%s)' % a[4], rets, raises, ok(1))
        rep.absorb(S.ip, 'dumps, state and downloads', n)
    scenario(rep, 'dumps, state and downloads', go)

    def go():
        S = driver()
        n = 0
        for op, args in (('write_resource_list', {}), ('write_resource_list', {'dump': True}), ('write_change_list', {'ref_sitemap': 'http://example.org/ref.xml'}),
                         ('write_change_list', {'empty': True}), ('write_change_list', {'ref_sitemap': 'http://example.org/ref.xml', 'newref_sitemap': 'http://example.org/ref.xml'}),
                         ('write_capability_list', {'capabilities': {'resourcelist': 'http://example.org/rl'}}), ('write_source_description', {'capability_lists': ['http://example.org/cl']})):
            for opts in ({}, {'max_sitemap_entries': 1}, {'hashes': ['md5']}):
                for out in ('/dst/out.xml', None):
                    if out is None and not args.get('dump'):
                        continue
                    o = dict(opts)
                    rets, raises = S.call('built', [op, out, args, o, False])
                    n += judge(rep, S, R5, 'resync.client.Client.' + op, '%s(%s) %s' % (op, ', '.join(sorted(args)), opts), op, rets, raises, ok(1))
        for op, args, changes in (('baseline_or_audit', {}, False), ('baseline_or_audit', {'allow_deletion': True}, False), ('incremental', {'from_datetime': '2011-01-01T00:00:00Z', 'change_list_uri': 'http://example.org/list.xml'}, True),
                                  ('incremental', {'allow_deletion': True, 'from_datetime': '2011-01-01T00:00:00Z', 'change_list_uri': 'http://example.org/list.xml'}, True)):
            for have in ((), ('/dst/a',), ('/dst/a', '/dst/old')):
                for entries in ([('http://example.org/a', 'updated'), ('http://example.org/b', 'created')], [('http://example.org/c', 'created')]):
                    for opts in ({}, {'hashes': ['md5']}):
                        rets, raises = S.call('synced', [entries, have, changes, opts, op, args])
                        n += judge(rep, S, R5, 'resync.client.Client.' + op, '%s(%s), %d entries, %d files %s' % (op, ', '.join(sorted(args)), len(entries), len(have), opts), op, rets, raises, ok(1))
        rep.absorb(S.ip, 'operations', n)
    scenario(rep, 'operations', go)
