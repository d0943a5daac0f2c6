"""Rules about documents: what is written, what is read, what is refused."""
import itertools

from ..state import C, mk_eq, show
from ..drive import Driver, judge, note, match, Pred, texts, is_term
from ..stubs import XML, TIMES, FILES, PAGES, present
from .common import scenario
from .list_rules import uris

SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'
ROOTS = {'xmlns': 'http://www.sitemaps.org/schemas/sitemap/0.9', 'xmlns:rs': 'http://www.openarchives.org/rs/terms/'}

SITEMAP = 'resync.sitemap.Sitemap'

# resource attribute -> (XML attribute of <rs:md>, whether it is a time)
MD = {'length': 'length', 'mime_type': 'type', 'change': 'change', 'ts_datetime': 'datetime', 'path': 'path',
      'capability': 'capability', 'ts_at': 'at', 'ts_completed': 'completed', 'ts_from': 'from', 'ts_until': 'until'}
TIME = ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
HASH = (('md5', 'md5:'), ('sha1', 'sha-1:'), ('sha256', 'sha-256:'))
ATTS = ('uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path',
        'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
DOC_MD = {'capability': 'capability', 'md_at': 'at', 'md_completed': 'completed', 'md_from': 'from', 'md_until': 'until'}
LN = {'rel': 'rel', 'href': 'href', 'hash': 'hash', 'length': 'length', 'modified': 'modified', 'path': 'path', 'pri': 'pri',
      'mime_type': 'type'}

COMMON = '''
ATTS = ('uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path',
        'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


def values(r):
    return [getattr(r, a) for a in ATTS] + [r.ln]


def plain(e):
    return (e.tag, e.text, dict(e.attrib), [plain(x) for x in e.kids])


def entry(tag, spec):
    """An element of a document, from (child tag, text, attributes) triples."""
    e = Element(tag)
    for t, text, atts in spec:
        k = Element(t, atts)
        k.text = text
        e.append(k)
    return e
'''

C24 = COMMON + '''
def written(atts, version):
    s = Sitemap(spec_version=version)
    x = s.resource_as_xml(Resource(**atts))
    return plain(x.root)


def read(kids, version, index):
    root = Element(SM + ('sitemapindex' if index else 'urlset'))
    root.append(entry(SM + ('sitemap' if index else 'url'), kids))
    b = Sitemap(spec_version=version).parse_xml(etree=ElementTree(root))
    return [values(x) for x in b]


def trip(atts, version):
    l = ListBase(spec_version=version)
    r = Resource(**atts)
    before = values(r)
    l.add(r)
    b = ListBase(spec_version=version)
    b.parse(str_data=l.as_xml())
    return [values(x) for x in b], values(r) == before


def doc_written(md, ln, version):
    l = ListBase(md=md, ln=ln, capability_name='changelist', spec_version=version)
    return [(x.tag, dict(x.attrib)) for x in l.as_xml().root.kids]


def doc_read(md, lns, version, cap):
    root = Element(SM + 'urlset')
    for a in lns:
        root.append(Element(RS + 'ln', a))
    if md is not None:
        root.append(Element(RS + 'md', md))
    b = ListBase(capability_name=cap, spec_version=version)
    b.parse(str_data=ElementTree(root))
    return dict(b.md), b.ln


def doc_trip(md, ln, version):
    l = ListBase(md=md, ln=ln, capability_name='changelist', spec_version=version)
    b = ListBase(capability_name='changelist', spec_version=version)
    b.parse(str_data=l.as_xml())
    return dict(b.md), b.ln


def url_links(lns):
    root = Element(SM + 'urlset')
    e = Element(SM + 'url')
    loc = Element(SM + 'loc')
    loc.text = 'http://example.org/a'
    e.append(loc)
    for a in lns:
        e.append(Element(RS + 'ln', a))
    root.append(e)
    b = Sitemap().parse_xml(etree=ElementTree(root))
    return [x.ln for x in b]
'''


def w3c(S, st, t):
    v = ('call', 'w3c', (t,), ())
    S.ip.types[v] = 'str'
    present(st, v)
    return v


def strof(S, st, t):
    return t if S.ip.typ(st, t) == 'str' else ('call', 'builtins.str', (t,), ())


def entry_values(S, st, present, change='updated'):
    """Unknown values of the given resource attributes."""
    vals = {}
    for a in present:
        if a == 'change':
            vals[a] = C(change)
        elif a == 'length':
            vals[a] = S.value(st, 'length', 'int')
        elif a in dict(HASH):
            vals[a] = C('digest-%s' % a)
        elif a in TIME:
            vals[a] = S.value(st, a)
            S.ip.types.pop(vals[a], None)
            S.ip.types[vals[a]] = 'float'
        else:
            vals[a] = S.value(st, a)
    return vals


def hash_text(vals):
    h = ' '.join(p + vals[a][2] for a, p in HASH if a in vals)
    return h


def entry_kids(S, st, vals, version, prefix='', known=True):
    """(children tags, texts, attributes) of the entry the specification gives for the values."""
    kids = [(prefix and SM) + 'loc', vals['uri'], {}],
    lm = vals.get('timestamp')
    if lm is None and version == '1.0' and known:
        lm = vals.get('ts_datetime')
    if lm is not None:
        kids += ((prefix and SM) + 'lastmod', w3c(S, st, lm), {}),
    md = {}
    for a, x in MD.items():
        if a in vals and not (version == '1.0' and a == 'ts_datetime' and known):
            md[x] = w3c(S, st, vals[a]) if a in TIME else strof(S, st, vals[a])
    if hash_text(vals):
        md['hash'] = C(hash_text(vals))
    if md:
        kids += ((RS + 'md') if prefix else 'rs:md', C(None), md),
    return kids


def back(vals, version, datetime=True):
    out = []
    for a in ATTS:
        v = vals.get(a, C(None))
        if version == '1.0':
            if a == 'ts_datetime':
                v = C(None)
            elif a == 'timestamp' and a not in vals and datetime:
                v = vals.get('ts_datetime', C(None))
        out.append(v)
    return out


def subsets():
    rest = [a for a in ATTS if a != 'uri']
    out = [()] + [(a,) for a in rest] + [tuple(rest)] + [tuple(b for b in rest if b != a) for a in rest]
    out += [('md5', 'sha1'), ('md5', 'sha256'), ('sha1', 'sha256')]
    return out


def rule_C24(prog, rep, tier):
    R = rep.rule('written', """Entries with no, each, all and all but each attribute, unknown values: the names and values in the document are those of
        the specification.""")
    R2 = rep.rule('read', 'The same entries read from a document by the specification: each value arrives in its attribute, lengths as integers.')
    R3 = rep.rule('round-trip', 'Writing and reading gives all attributes back and leaves the resource unchanged.')
    R4 = rep.rule('document', 'Document metadata and links: names written, names read, round trip.')
    for version in ('1.1', '1.0'):
        def go(version=version):
            S = Driver(prog, C24, 'C24', budget=4000000, subst=(XML, TIMES))
            paths = 0
            for sub in subsets():
                for change in ('created', 'updated', 'deleted') if sub == ('change',) else ('updated',):
                    what = 'version %s, with %s' % (version, ', '.join(sub) if len(sub) < 4 else 'all but %s' % ', '.join(
                        a for a in ATTS if a not in sub and a != 'uri') if len(sub) < len(ATTS) - 1 else 'all')
                    group = '%s %s' % (version, ','.join(sub) if len(sub) < 4 else 'all')
                    st = S.state()
                    vals = entry_values(S, st, ('uri',) + sub, change)
                    kids = entry_kids(S, st, vals, version)
                    rets, raises = S.call('written', [dict(vals), version], st)
                    want = tuple((k[0], k[1], k[2], ()) for k in kids)
                    paths += judge(rep, S, R, SITEMAP + '.resource_etree_element', what, group, rets, raises, ('url', C(None), {}, want))
                    for index in (False, True):
                        st = S.state()
                        vals = entry_values(S, st, ('uri',) + sub, change)
                        kids = [list(k) for k in entry_kids(S, st, vals, version, 'ns', known=False)]
                        rets, raises = S.call('read', [kids, version, index], st)
                        paths += judge(rep, S, R2, SITEMAP + '.resource_from_etree', what + (', index' if index else ''), group, rets, raises,
                                       (tuple(back(vals, version, False)) + (C(None),),))
                    st = S.state()
                    vals = entry_values(S, st, ('uri',) + sub, change)
                    rets, raises = S.call('trip', [dict(vals), version], st)
                    paths += judge(rep, S, R3, SITEMAP + '.resource_from_etree', what, group, rets, raises,
                                   ((tuple(back(vals, version)) + (C(None),),), C(True)))
            rep.absorb(S.ip, 'entries, version ' + version, paths)
        scenario(rep, 'entries, version ' + version, go)

        def go(version=version):
            S = Driver(prog, C24, 'C24', budget=2000000, subst=(XML, TIMES))
            paths = 0
            rest = [a for a in DOC_MD if a != 'capability']
            links = [a for a in LN if a not in ('rel', 'href')]
            for sub in [()] + [(a,) for a in rest] + [tuple(rest)]:
                for lsub in [None, ()] + [(a,) for a in links] + [tuple(links)]:
                    if lsub not in (None, tuple(links)) and sub not in ((), tuple(rest)):
                        continue
                    st = S.state()

                    def data():
                        md = {'capability': C('changelist')}
                        for a in sub:
                            md[a] = S.value(st, a)
                        lns = []
                        if lsub is not None:
                            for i in '12':
                                ln = {'rel': S.value(st, 'rel' + i), 'href': S.value(st, 'href' + i)}
                                for a in lsub:
                                    ln[a] = S.value(st, a + i, 'int' if a in ('length', 'pri') else 'str')
                                    if a == 'pri':
                                        st.learn(('lt', ln[a], C(1)), False)
                                        st.learn(('lt', C(999999), ln[a]), False)
                                lns.append(ln)
                        return md, lns
                    md, lns = data()
                    what = 'document metadata %s, links %s' % (', '.join(sub) or 'none', 'none' if lsub is None else 'with ' + (', '.join(lsub) or 'rel and href'))
                    group = '%s %s; %s' % (version, ','.join(sub), lsub and ','.join(lsub))
                    xmd = {DOC_MD[a]: v for a, v in md.items()}
                    xln = [{LN[a]: strof(S, st, v) for a, v in l.items()} for l in lns]
                    rets, raises = S.call('doc_written', [md, lns, version], st)
                    paths += judge(rep, S, R4, SITEMAP + '.add_element_with_atts_to_etree', 'written: ' + what, group, rets, raises,
                                   tuple(('rs:ln', l) for l in xln) + (('rs:md', xmd),))
                    for f, args in (('doc_read', [xmd, xln, version, 'changelist']), ('doc_trip', [md, lns, version])):
                        st = S.state()
                        md, lns = data()
                        rets, raises = S.call(f, args, st)
                        paths += judge(rep, S, R4, SITEMAP + '.md_from_etree', f + ': ' + what, group, rets, raises, (md, tuple(lns)))
                    if sub == () and lns:
                        st = S.state()
                        md, lns = data()
                        rets, raises = S.call('url_links', [xln], st)
                        paths += judge(rep, S, R4, SITEMAP + '.ln_from_etree', 'links of an entry: ' + what, group, rets, raises, (tuple(lns),))
            rep.absorb(S.ip, 'documents, version ' + version, paths)
        scenario(rep, 'documents, version ' + version, go)


# ---------------------------------------------------------------------- C25

C25 = COMMON + '''
def tree(spec):
    e = Element(spec[0], spec[2])
    e.text = spec[1]
    for k in spec[3]:
        e.append(tree(k))
    return e


def parse(spec, via, index, cap):
    t = ElementTree(tree(spec))
    if via == 'parse_xml':
        b = Sitemap().parse_xml(etree=t, sitemapindex=index, capability=cap)
    elif via == 'parse':
        b = ListBase(capability_name=cap)
        b.parse(str_data=t)
    elif via == 'parse uri':
        b = ListBase(capability_name=cap)
        PAGES['http://example.org/list.xml'] = t
        b.parse(uri='http://example.org/list.xml')
    else:
        PAGES['http://example.org/list.xml'] = t
        if via == 'ResourceList':
            b = ResourceList()
        else:
            b = ListBaseWithIndex(capability_name=cap)
        b.read('http://example.org/list.xml')
    return [x.uri for x in b]
'''


def el(tag, atts=None, text=None, kids=()):
    return (C(tag) if isinstance(tag, str) else tag, C(None) if text is None else text, dict(atts or {}), list(kids))


def good(i, item):
    return el(SM + item, kids=[el(SM + 'loc', text=C('http://example.org/%d' % i)), el(SM + 'lastmod', text=('call', 'w3c', (C(i),), ())),
                               el(RS + 'md', {'hash': 'md5:%d' % i, 'length': '1'}), el(RS + 'ln', {'rel': 'describes', 'href': 'h', 'pri': '1'})])




def bad_entries(S, st, item):
    """(description, entry) for each way an entry can be malformed."""
    loc = el(SM + 'loc', text=C('http://example.org/bad'))

    def text(name, numeric=None, w3c=None, other=()):
        t = S.value(st, name, 'str', other)
        for c in ('int', 'float'):
            st.learn(('numeric', c, t), bool(numeric))
        if w3c is False:
            st.learn(('w3c', t), False)
        return t

    def number(name, low=None, high=None):
        t = text(name, numeric=True)
        v = ('call', 'builtins.int', (t,), ())
        st.learn(('lt', v, C(1)), bool(low))
        st.learn(('lt', v, C(1000000)), not high)
        return t

    def ln(**atts):
        return el(RS + 'ln', atts)
    E = lambda *kids: el(SM + item, kids=list(kids))
    yield 'no loc', E()
    yield 'no loc but other elements', E(el(SM + 'lastmod', text=('call', 'w3c', (C(1),), ())), el(RS + 'md', {'length': '1'}))
    yield 'loc in another namespace', E(el('loc', text=C('http://example.org/bad')))
    yield 'two locs', E(loc, loc)
    yield 'two different locs', E(loc, el(SM + 'lastmod', text=('call', 'w3c', (C(1),), ())), el(SM + 'loc', text=C('http://example.org/0')))
    yield 'three locs', E(loc, loc, loc)
    yield 'loc and empty loc', E(el(SM + 'loc'), loc)
    yield 'empty loc', E(el(SM + 'loc'))
    yield 'loc with empty text', E(el(SM + 'loc', text=C('')))
    yield 'two lastmods', E(loc, el(SM + 'lastmod', text=('call', 'w3c', (C(1),), ())), el(SM + 'lastmod', text=('call', 'w3c', (C(1),), ())))
    yield 'lastmod and empty lastmod', E(loc, el(SM + 'lastmod', text=('call', 'w3c', (C(1),), ())), el(SM + 'lastmod'))
    yield 'bad lastmod', E(loc, el(SM + 'lastmod', text=text('badtime', w3c=False)))
    yield 'two mds', E(loc, el(RS + 'md', {'length': '1'}), el(RS + 'md', {'hash': 'md5:1'}))
    yield 'two mds without attributes', E(loc, el(RS + 'md'), el(RS + 'md'))
    for n, v in (('unknown change', text('badchange', other=('created', 'updated', 'deleted'))), ('empty change', C('')), ('capitalised change', C('Created'))):
        yield n, E(loc, el(RS + 'md', {'change': v}))
        yield n + ' among others', E(loc, el(RS + 'md', {'hash': 'md5:1', 'change': v, 'length': '1', 'path': '/x', 'type': 'text/plain'}))
    yield 'non-integer length', E(loc, el(RS + 'md', {'length': text('badlength')}))
    yield 'empty length', E(loc, el(RS + 'md', {'length': C('')}))
    yield 'non-integer length and change', E(loc, el(RS + 'md', {'length': text('badlength'), 'change': 'deleted'}))
    yield 'decimal length', E(loc, el(RS + 'md', {'length': C('1.5')}))
    for a in ('datetime', 'at', 'completed', 'from', 'until'):
        yield 'bad %s' % a, E(loc, el(RS + 'md', {a: text('badtime', w3c=False)}))
    R, H = text('rel'), text('href')
    yield 'link without rel', E(loc, ln(href=H))
    yield 'link without href', E(loc, ln(rel=R))
    yield 'link with all but rel', E(loc, ln(href=H, hash='md5:1', length='1', modified='m', path='/x', pri='1', type='text/plain'))
    yield 'link with all but href', E(loc, ln(rel=R, hash='md5:1', length='1', modified='m', path='/x', pri='1', type='text/plain'))
    yield 'link without attributes', E(loc, ln())
    yield 'second link without href', E(loc, ln(rel=R, href=H), ln(rel=R, type='text/plain'))
    yield 'first of links without rel', E(loc, ln(href=H), ln(rel=R, href=H))
    yield 'link with priority zero or less', E(loc, ln(rel=R, href=H, pri=number('low', low=True)))
    yield 'link with priority above 999999', E(loc, ln(rel=R, href=H, pri=number('high', high=True)))
    yield 'link with priority 0', E(loc, ln(rel=R, href=H, pri='0'))
    yield 'link with priority 1000000', E(loc, ln(rel=R, href=H, pri='1000000'))
    yield 'link with priority -1', E(loc, ln(rel=R, href=H, pri='-1'))
    yield 'link with non-integer priority', E(loc, ln(rel=R, href=H, pri=text('badpri')))
    yield 'link with empty priority', E(loc, ln(rel=R, href=H, pri=''))
    yield 'link with non-integer length', E(loc, ln(rel=R, href=H, length=text('badlength')))


SM_ERRORS = ('resync.sitemap.SitemapParseError', 'resync.sitemap.SitemapIndexError')
PARSE_ERROR = ('resync.sitemap.SitemapParseError',)


def rule_C25(prog, rep, tier):
    R = rep.rule('entry', 'Every way an entry can be malformed, in a list or an index, at each position among good entries: every path ends in a sitemap error.')
    R2 = rep.rule('document', 'Misplaced, repeated or malformed document metadata and links and wrong root elements: every path ends in a sitemap error.')
    R3 = rep.rule('kind', 'A list where an index was demanded and the reverse: a sitemap index error; without a demand both are accepted.')
    R4 = rep.rule('accepted', 'The good documents used as the frame of these are accepted.')

    def driver():
        return Driver(prog, C25, 'C25', budget=4000000, subst=(XML, TIMES, PAGES))

    names = [n for n, e in bad_entries(driver(), driver().state(), 'url')]
    for root, item in (('urlset', 'url'), ('sitemapindex', 'sitemap')):
        for pos in range(3):
            def go(root=root, item=item, pos=pos):
                S = driver()
                paths = 0
                for name in names:
                    for via in ('parse_xml',) if pos != 1 or item != 'url' else ('parse_xml', 'parse', 'parse uri', 'read', 'ResourceList'):
                        st = S.state()
                        e = dict(bad_entries(S, st, item))[name]
                        es = [good(0, item), good(1, item)]
                        es.insert(pos, e)
                        rets, raises = S.call('parse', [el(SM + root, kids=[el(RS + 'md', {'capability': 'resourcelist'})] + es), via, C(None), 'resourcelist'], st)
                        paths += judge(rep, S, R, SITEMAP + '.resource_from_etree', '%s with %s as entry %d (%s)' % (root, name, pos + 1, via),
                                       '%s: %s' % (root, name), rets, raises, None, error=PARSE_ERROR)
                rep.absorb(S.ip, 'entries of %s, position %d' % (root, pos + 1), paths)
            scenario(rep, 'entries of %s, position %d' % (root, pos + 1), go)

        def go(root=root, item=item):
            S = driver()
            paths = 0
            md = el(RS + 'md', {'capability': 'resourcelist'})
            l0 = el(RS + 'ln', {'rel': 'up', 'href': 'h'})

            def cases(st):
                g = [good(0, item), good(1, item)]
                yield 'two mds', [md, md] + g
                yield 'two mds, the second empty', [md, el(RS + 'md')] + g
                yield 'mds around a link', [md, l0, md] + g
                yield 'two mds, the first empty', [el(RS + 'md'), md] + g
                yield 'two empty mds', [el(RS + 'md'), el(RS + 'md')] + g
                yield 'two mds after a link', [l0, md, md] + g
                yield 'two mds around other elements', [md, el('{other}x'), l0, l0, el('{other}x'), md] + g
                yield 'md after the first entry', [l0, g[0], md, g[1]]
                yield 'md at the end', g + [md]
                yield 'second md at the end', [md] + g + [md]
                yield 'link after the first entry', [md, g[0], l0, g[1]]
                yield 'link at the end', [md] + g + [l0]
                yield 'second link at the end', [l0, md] + g + [l0]
                for n, e in bad_entries(S, st, item):
                    for k in e[3]:
                        if k[0] == C(RS + 'ln') and 'link' in n and 'second' not in n and 'first' not in n:
                            yield 'document ' + n, [md, k] + g
                            yield 'document ' + n + ' after a good one', [l0, md, k] + g
                        if k[0] == C(RS + 'md') and ('change' in n or 'length' in n) and 'capability' not in k[2] and 'link' not in n:
                            yield 'document ' + n, [el(RS + 'md', dict(k[2], capability='resourcelist'))] + g
            for name in [n for n, k in cases(S.state())]:
                for via in ('parse_xml', 'parse', 'read') if item == 'url' else ('parse_xml',):
                    st = S.state()
                    rets, raises = S.call('parse', [el(SM + root, kids=dict(cases(st))[name]), via, C(None), 'resourcelist'], st)
                    paths += judge(rep, S, R2, SITEMAP + '.parse_xml', '%s with %s (%s)' % (root, name, via), '%s: %s' % (root, name), rets, raises, None,
                                   error=PARSE_ERROR)
            for via in ('parse_xml', 'parse', 'read') if item == 'url' else ('parse_xml',):
                st = S.state()
                rets, raises = S.call('parse', [el(SM + root, kids=[l0, md, l0, good(0, item), good(1, item), el('{other}x')]), via, C(None), 'resourcelist'], st)
                paths += judge(rep, S, R4, SITEMAP + '.parse_xml', 'good %s (%s)' % (root, via), 'good %s (%s)' % (root, via), rets, raises,
                               (C('http://example.org/0'), C('http://example.org/1')))
            rep.absorb(S.ip, 'document parts of ' + root, paths)
        scenario(rep, 'document parts of ' + root, go)

    def go():
        S = driver()
        paths = 0
        md = el(RS + 'md', {'capability': 'resourcelist'})
        for item in ('url', 'sitemap'):
            for via in ('parse_xml', 'parse', 'read'):
                for name in ('no namespace', 'index without namespace', 'md', 'url', 'other namespace', 'anything else'):
                    for index in (None, False, True):
                        if index is not None and via != 'parse_xml':
                            continue
                        st = S.state()
                        any_ = S.value(st, 'roottag', 'str', (SM + 'urlset', SM + 'sitemapindex'))
                        root = {'no namespace': C('urlset'), 'index without namespace': C('sitemapindex'), 'md': C(RS + 'md'), 'url': C(SM + 'url'),
                                'other namespace': C(RS + 'urlset'), 'anything else': any_}[name]
                        rets, raises = S.call('parse', [el(root, kids=[md, good(0, item)]), via, C(index), 'resourcelist'], st)
                        paths += judge(rep, S, R2, SITEMAP + '.parse_xml', 'root element %s around %s, index=%s (%s)' % (name, item, index, via), 'root element ' + name,
                                       rets, raises, None, error=SM_ERRORS)
        for root, item in (('urlset', 'url'), ('sitemapindex', 'sitemap')):
            for index in (None, False, True):
                st = S.state()
                rets, raises = S.call('parse', [el(SM + root, kids=[md, good(0, item)]), 'parse_xml', C(index), 'resourcelist'], st)
                wrong = index is not None and index != (root == 'sitemapindex')
                paths += judge(rep, S, R3, SITEMAP + '.parse_xml', '%s with index=%s' % (root, index), '%s with index=%s' % (root, index), rets, raises,
                               (C('http://example.org/0'),), error=('resync.sitemap.SitemapIndexError',) if wrong else None)
        st = S.state()
        rets, raises = S.call('parse', [el(SM + 'sitemapindex', kids=[md, good(0, 'sitemap')]), 'parse', C(None), 'resourcelist'], st)
        paths += judge(rep, S, R3, 'resync.list_base.ListBase.parse', 'an index parsed as a list', 'an index parsed as a list', rets, raises, None,
                       error=('resync.sitemap.SitemapIndexError',))
        rep.absorb(S.ip, 'roots', paths)
    scenario(rep, 'roots', go)
