"""Rules about finding the source's documents (C39)."""
import itertools

from ..state import C
from ..drive import Driver, judge, Pred
from ..stubs import XML, TIMES, PAGES, FILES, LOGS
from .common import scenario
from .xml_rules import COMMON

SOURCE = COMMON + '''
from resync.client import Client
from resync.client_utils import ClientError, ClientFatalError


def doc(capability, entries, index=False):
    r = Element(SM + ('sitemapindex' if index else 'urlset'))
    r.append(Element(RS + 'md', {'capability': capability}))
    for uri, cap in entries:
        e = entry(SM + ('sitemap' if index else 'url'), [(SM + 'loc', uri, {})])
        if cap:
            e.append(Element(RS + 'md', {'capability': cap}))
        r.append(e)
    return ElementTree(r)


def serve(pages):
    for uri, kind, arg in pages:
        if kind == 'broken':
            PAGES[uri] = '<not xml'
        elif kind == 'gone':
            PAGES[uri] = None
        elif kind == 'index':
            PAGES[uri] = doc('resourcelist', [(arg, None)], True)
        else:
            PAGES[uri] = doc(kind, arg)


def ask(mappings, sitemap, caplist, multi, pages, how):
    serve(pages)
    c = Client()
    c.set_mappings(mappings)
    if sitemap is not None:
        c.sitemap_name = sitemap
    if caplist is not None:
        c.capability_list_uri = caplist
    if multi is not None:
        c.allow_multifile = multi
    try:
        x = c.find_resource_list()
    except Exception as e:
        return 'error', fatal(e), asked()
    return 'found', [r.uri for r in x], asked()


def fatal(e):
    """The kinds of the client's errors are told apart, others are not expected."""
    if isinstance(e, ClientFatalError):
        return 'fatal'
    if isinstance(e, ClientError):
        return 'error'
    raise e


def asked():
    seen = []
    for x in LOG:
        if x[0] == 'read' and x[1] not in seen:
            seen.append(x[1])
    return seen
'''
HOST = 'http://example.org'
UNREAD = ('missing', 'gone', 'broken', 'wrong', 'other')


class World(object):
    """Pages on the web, and what a search that follows the documentation does."""

    def __init__(self):
        self.pages = []
        self.names = 0

    def put(self, uri, kind, arg=()):
        if all(u != uri for u, _, _ in self.pages):
            self.pages.append((uri, kind, arg))

    def page(self, uri, kind, own):
        """An unreadable page."""
        if kind in ('gone', 'broken'):
            self.put(uri, kind)
        elif kind == 'wrong':
            self.put(uri, 'changelist', [(HOST + '/x', None)])
        elif kind == 'other':
            self.put(uri, {'resourcelist': 'description', 'description': 'capabilitylist', 'capabilitylist': 'resourcelist'}[own], [(HOST + '/x', None)])

    def list(self, uri, kind, multi=True):
        """(outcome, pages asked for)"""
        if kind in UNREAD:
            self.page(uri, kind, 'resourcelist')
            return ('next', [uri])
        if kind == 'parts':
            self.put(uri, 'index', uri + '.part')
            self.put(uri + '.part', 'resourcelist', [(uri + '#a', None)])
            if not multi:
                return ('next', [uri])
            return (('found', [uri + '#a']), [uri, uri + '.part'])
        entries = [(uri + '#' + x, None) for x in {'none': '', 'one': 'a', 'two': 'ab'}[kind]]
        self.put(uri, 'resourcelist', entries)
        return (('found', [u for u, _ in entries]), [uri])

    def join(self, uri, ref):
        if '://' in ref:
            return ref
        if ref[0] == '/':
            return '/'.join(uri.split('/')[:3]) + ref
        return uri[:uri.rindex('/') + 1] + ref

    def caplist(self, uri, kind, multi=True):
        if kind in UNREAD:
            self.page(uri, kind, 'capabilitylist')
            return ('next', [uri])
        if kind[0] == 'nolist':
            self.put(uri, 'capabilitylist', [(HOST + '/' + c, c) for c in kind[1]])
            return ('fatal', [uri])
        ref, before, after, rl = kind[1:]
        self.put(uri, 'capabilitylist', [(HOST + '/' + c, c) for c in before] + [(ref, 'resourcelist')] + [(HOST + '/' + c, c) for c in after])
        out, asked = self.list(self.join(uri, ref), rl, multi)
        return (out, [uri] + asked)

    def description(self, uri, kind, multi=True):
        if kind in UNREAD:
            self.page(uri, kind, 'description')
            return ('next', [uri])
        if kind[0] == 'sources':
            self.put(uri, 'description', [('%s/cl%d' % (HOST, i), 'capabilitylist') for i in range(kind[1])])
            for i in range(kind[1]):
                self.caplist('%s/cl%d' % (HOST, i), ('list', HOST + '/rl.xml', (), (), 'one'))
            return ('fatal', [uri])
        ref, cl = kind[1:]
        self.put(uri, 'description', [(ref, 'capabilitylist')])
        out, asked = self.caplist(self.join(uri, ref), cl, multi)
        return (out, [uri] + asked)


def expected(kinds, base, sitemap=None, caplist=None, multi=None):
    """(pages, outcome, pages asked for); kinds by place."""
    w = World()
    m = multi is not False
    places = [('list', sitemap)] if sitemap else [('caplist', caplist)] if caplist else [
        ('description', base + '/.well-known/resourcesync'), ('description', HOST + '/.well-known/resourcesync'),
        ('list', base + '/resourcelist.xml'), ('list', base + '/sitemap.xml'), ('list', HOST + '/sitemap.xml')]
    asked = []
    out = None
    got = [getattr(w, k)(uri, kinds.get(uri, 'missing'), m) for k, uri in places]
    known = [(k, uri) for k, uri in [('description', base + '/.well-known/resourcesync'), ('description', HOST + '/.well-known/resourcesync'),
                                     ('list', base + '/resourcelist.xml'), ('list', base + '/sitemap.xml'), ('list', HOST + '/sitemap.xml'), ('caplist', caplist)] if uri]
    for o, a in got:
        asked += [x for x in a if x not in asked]
        if o != 'next':
            out = o
            break
    for k, uri in known:
        getattr(w, k)(uri, kinds.get(uri, 'missing'), m)
    if out is None:
        out = 'error' if sitemap or caplist else 'fatal'
    if not isinstance(out, tuple):
        out = ('error', out)
    return w.pages, out, asked


def text(kind):
    if isinstance(kind, str):
        return kind
    return ' '.join(text(x) if isinstance(x, tuple) else str(x) for x in kind if x != ())


def rule_C39(prog, rep, tier):
    R = rep.rule('explicit list', 'A resource list given explicitly is the only page tried, whatever else is there.')
    R2 = rep.rule('explicit capability list', 'A capability list given explicitly leads to the resource list or the search fails.')
    R3 = rep.rule('search', 'Every pattern of pages at the five places: the pages asked for, in order, and the list found or the fatal error.')
    site = 'resync.client.Client.find_resource_list'

    def one(S, R, case, group, kinds, base, sitemap=None, caplist=None, multi=None, slash=False, dst='/dst'):
        pages, out, asked = expected(kinds, base, sitemap, caplist, multi)
        st = S.state()
        rets, raises = S.call('ask', [[base + ('/' if slash else ''), dst], sitemap, caplist, multi, pages, 0], st)
        if out[0] == 'error' and (sitemap or caplist) and out[1] == 'error':
            want = ('error', Pred('an error', lambda S, st, got: got in (C('error'), C('fatal'))), tuple(asked))
        else:
            want = (out[0], tuple(out[1]) if out[0] == 'found' else out[1], tuple(asked))
        return judge(rep, S, R, site, case, group, rets, raises, want)

    def driver():
        return Driver(prog, SOURCE, 'find', subst=(XML, TIMES, FILES, PAGES, LOGS), budget=20000000)

    base = HOST + '/base'
    D = [base + '/.well-known/resourcesync', HOST + '/.well-known/resourcesync']
    L = [base + '/resourcelist.xml', base + '/sitemap.xml', HOST + '/sitemap.xml']
    caps = ('changelist', 'resourcedump', 'changedump')
    LISTS = UNREAD + ('none', 'one', 'two', 'parts')
    REFS = (HOST + '/there/rl.xml', 'rl.xml', '/abs/rl.xml', 'sub/rl.xml', 'http://other.org/rl.xml')
    CAPLISTS = list(UNREAD) + [('nolist', caps[:i]) for i in (0, 1, 3)] + \
        [('list', REFS[0], (), (), k) for k in LISTS] + [('list', r, (), (), 'one') for r in REFS] + \
        [('list', REFS[1], caps[:i], caps[i:j], 'two') for i, j in ((0, 1), (1, 1), (1, 3), (3, 3))]

    def go():
        S = driver()
        n = 0
        full = {D[0]: ('list', HOST + '/cl.xml', ('list', HOST + '/rl.xml', (), (), 'one')), L[0]: 'one', L[1]: 'one', L[2]: 'one'}
        uri = HOST + '/my/list.xml'
        for k in LISTS:
            for multi in (None, True, False):
                for others in ({}, full):
                    for cl in (None, HOST + '/cl.xml'):
                        kinds = dict(others)
                        kinds[uri] = k
                        if cl:
                            kinds[cl] = ('list', HOST + '/rl2.xml', (), (), 'one')
                        n += one(S, R, 'given resource list: %s%s%s%s' % (k, ', others there' if others else '', ', capability list given' if cl else '', ', one file only' if multi is False else ''),
                                 'given resource list: %s' % k, kinds, base, uri, cl, multi)
        for k in CAPLISTS:
            for others in ({}, full):
                kinds = dict(others)
                kinds[HOST + '/given/cl.xml'] = k
                n += one(S, R2, 'given capability list: %s%s' % (text(k), ', others there' if others else ''), 'given capability list: %s' % text(k), kinds, base, None, HOST + '/given/cl.xml')
        rep.absorb(S.ip, 'explicit', n)
    scenario(rep, 'explicit', go)

    DESCS = list(UNREAD) + [('sources', 0), ('sources', 2), ('sources', 3)] + \
        [('list', HOST + '/cl.xml', k) for k in CAPLISTS] + [('list', r, ('list', 'rl.xml', (), (), 'one')) for r in ('cl.xml', '/abs/cl.xml', '../cl.xml'[3:], 'http://other.org/c/cl.xml')]

    for part in range(4):
        def go(part=part):
            S = driver()
            n = 0
            goods = [{L[i]: 'one' for i in range(3)}, {}]
            for i, k in enumerate(DESCS):
                if i % 4 != part:
                    continue
                for rest in goods:
                    for at in (0, 1):
                        for first in ('missing', 'broken') if at else ('missing',):
                            for second in ('missing', ('list', HOST + '/cl2.xml', ('list', HOST + '/rl2.xml', (), (), 'one'))) if not at else (None,):
                                kinds = dict(rest)
                                kinds[D[at]] = k
                                if at:
                                    kinds[D[0]] = first
                                else:
                                    kinds[D[1]] = second
                                n += one(S, R3, '%s description: %s%s%s' % (('first', 'second')[at], text(k), ', lists there' if rest else '',
                                                                          ', first ' + first if at else '' if second == 'missing' else ', second there'),
                                         '%s description: %s' % (('first', 'second')[at], text(k)), kinds, base)
            rep.absorb(S.ip, 'descriptions %d' % part, n)
        scenario(rep, 'descriptions %d' % part, go)

    def go():
        S = driver()
        n = 0
        for ks in itertools.product(UNREAD[:4] + ('one', 'none'), repeat=3):
            n += one(S, R3, 'lists: %s' % ', '.join(ks), 'lists: %s' % ks[0], dict(zip(L, ks)), base)
        bad = ('missing', 'gone', 'broken', 'wrong', ('list', HOST + '/c.xml', 'missing'), ('list', HOST + '/cl.xml', ('list', HOST + '/rl.xml', (), (), 'gone')))
        for a, b in itertools.product(bad, repeat=2):
            for ls in ({}, {L[0]: 'one', L[1]: 'two'}, {L[1]: 'one', L[2]: 'two'}, {L[2]: 'one'}):
                kinds = dict(ls)
                kinds.update({D[0]: a, D[1]: b})
                n += one(S, R3, 'descriptions: %s and %s, %d lists' % (text(a), text(b), len(ls)), 'descriptions: %s and %s' % (text(a), text(b)), kinds, base)
        for b in (HOST, HOST + '/a/b/c', HOST + '/base'):
            for slash in (False, True):
                for at in range(6):
                    places = [b + '/.well-known/resourcesync', HOST + '/.well-known/resourcesync', b + '/resourcelist.xml', b + '/sitemap.xml', HOST + '/sitemap.xml']
                    kinds = {}
                    for i in range(at, 5):
                        kinds.setdefault(places[i], ('list', '%s/cl%d.xml' % (HOST, i), ('list', '%s/rl%d.xml' % (HOST, i), (), (), 'one')) if i < 2 else 'one')
                    n += one(S, R3, 'base %s%s, from place %d on' % (b, '/' if slash else '', at + 1), 'base %s%s' % (b, '/' if slash else ''), kinds, b, slash=slash)
        rep.absorb(S.ip, 'lists and bases', n)
    scenario(rep, 'lists and bases', go)
