"""Rules about strings: mapping (C08), authority (C09), unsafe mappings (C10)."""
from ..state import C, NONE, TRUE, FALSE, State, show
from ..interp import Interp
from ..strdom import StrDom
from ..sync import aget
from ..report import txt
from .common import scenario

MAP = 'resync.mapper.Map'
MAPPER = 'resync.mapper.Mapper'
AUTH = 'resync.url_authority.UrlAuthority'


class Strings(object):
    """One interpreter with the string domain."""

    def __init__(self, prog, budget=100000):
        self.prog = prog
        self.ip = Interp(prog, budget=budget)
        self.ip.recency = 6
        self.d = StrDom(self.ip)

    def state(self):
        st = State()
        st.auto = ()
        return st

    def new(self, cls, args, st=None, kws=None):
        """[(state, object)], raises"""
        return self.ip.construct(self.prog.cls(cls), list(args), dict(kws or {}), st or self.state())

    def call(self, cls, meth, obj, args, st, kws=None):
        return self.ip.run(self.prog.method(cls, meth), obj, list(args), dict(kws or {}), st)


def outcome(rep, R, fn, case, S, rets, raises, want, errors=()):
    """Every path returns `want` (a term) - or raises one of `errors` if want is None."""
    n = 0
    for st, v in rets:
        n += 1
        imp = aget(st, 'imprecise')
        bad = None
        if want is None:
            bad = 'gives %s instead of an error' % txt(v)
        else:
            if v == want:
                rep.hold(R, case)
                continue
            ok = None
            if (v in (NONE, TRUE, FALSE) or want in (NONE, TRUE, FALSE)) and v[0] != 'fresh':
                ok = False
                if want in (TRUE, FALSE):
                    t = S.ip.truth(st, v) if hasattr(S.ip, 'truth') else None
                    if v not in (TRUE, FALSE, NONE):
                        ok = None
            elif v[0] != 'fresh':
                ok = S.d.eq(v, want)
            if ok is True:
                rep.hold(R, case)
                continue
            if ok is None:
                rep.undecided(R, case, 'result %s' % txt(v))
                continue
            bad = 'gives %s instead of %s' % (txt(v), txt(want))
        if imp is not None:
            rep.undecided(R, case, 'not decided (%s)' % imp)
        else:
            rep.fail(R, fn, case, bad, '', st.path())
    for e in raises:
        st, exc = e[0], e[1]
        n += 1
        o = S.ip.obj(st, exc)
        name = exc[1] if exc[0] == 'exc' else (o.cls if o is not None else show(exc))
        if want is None and name in errors:
            rep.hold(R, case)
        elif aget(st, 'imprecise') is not None:
            rep.undecided(R, case, 'not decided (%s)' % aget(st, 'imprecise'))
        else:
            rep.fail(R, fn, case, 'raises %s%s' % (name, '' if want is None else ' instead of %s' % txt(want)), '', st.path())
    if not n:
        rep.undecided(R, case, 'no path')


def cat(*xs):
    from .. import ext as X
    return X.cat([C(x) if isinstance(x, str) else x for x in xs])


# ---------------------------------------------------------------------- C08

SPELLINGS = [([m], u, w) for m, u, w in (
    [('p=q', 'p/%s' % x, 'q/%s' % x) for x in (
        'a%20b', 'a%2e%2e/b', '%2e%2e/b', 'a+b', 'a b', 'a?b=c', 'a#b', 'a;b', 'a&b', 'a\\b', 'a\u00e9', 'A/B', 'a//b', '/a', 'a/', 'a/./b', './a', '.a', 'a.',
        '...', 'a..b', '..a', 'a..', 'a/b..', ' a', 'a ', '~a', '$a', '*', '[a]', '(a)', '^a', 'a|b', '{0}', '%s', '%(a)s', '\\1', '\\g<0>', '"a"', "'a'", ':a', 'a:b', 'p',
        'p/p', 'q', 'a\tb', 'a\nb', 'a\n', 'index.html', 'a.xml')]
    + [('p=q', u, None) for u in ('p?a', 'p#a', 'pa', 'P/a', 'p.a', 'p\\a', 'a/p/b', '/p/a', ' p/a', './p/a', 'x', '', '/', '//p/a', 'p%2Fa', 'p ', 'p\n')]
    + [('p=q', u, None) for u in ('p/..', 'p/../a', 'p/a/..', 'p/a/../b', 'p/a/b/../../../c', 'p//..//a', 'p/../../a')]
    + [('http://h.org/a.b=/d', u, w) for u, w in (
        ('http://h.org/a.b/c', '/d/c'), ('http://h.org/axb/c', None), ('http://h.org/a.b', '/d/'), ('http://h.org/a.b/', '/d/'), ('https://h.org/a.b/c', None),
        ('HTTP://h.org/a.b/c', None), ('http://h.org:80/a.b/c', None), ('http://hxorg/a.b/c', None), ('http://h.org//a.b/c', None),
        ('http://h.org/A.B/c', None), ('http://h.org/a.b/http://h.org/a.b/c', '/d/http://h.org/a.b/c'), ('http://h.org/a.bc/c', None), ('http://u@h.org/a.b/c', None))]
    + [('a+b(c)[d]*?^$=/e', u, w) for u, w in (('a+b(c)[d]*?^$/f', '/e/f'), ('aab(c)[d]*?^$/f', None), ('ab/f', None))]
    + [('a%20b=/e', u, w) for u, w in (('a%20b/f', '/e/f'), ('a b/f', None))])]


def rule_C08(prog, rep, tier):
    R = rep.rule('literal-at-boundary', """For a map with prefix P and other side D (unknown strings): P and P/rest map to D/ and D/rest, in
        both directions; a string that continues P with another character, leaves P at some character, or ends within P
        is not mapped.  The cases cover every string.""")
    R2 = rep.rule('no-climbing', 'A source URI with a ".." segment after the prefix is not mapped to a local path.')
    R3 = rep.rule('order', 'The first map, in the order given, that applies determines the result; none is a MapperError.')
    R4 = rep.rule('constructor', 'Trailing slashes of the prefixes do not matter; map strings are split at their only "=".')

    R6 = rep.rule('spellings', 'Prefixes and remainders with characters that mean something elsewhere are taken literally.')
    R5 = rep.rule('history', 'The answer of a mapper does not depend on the questions asked before.')

    def one(case, R, meth, mk, args=('P', 'D')):
        def go():
            S = Strings(prog)
            d = S.d
            side, u, want = mk(d)
            other = d.sym('D', min=1, last_no='/')
            a = (side, other) if meth == 'src_to_dst' else (other, side)
            rets, raises = [], []
            for st, o in S.new(MAP, a)[0]:
                r, e = S.call(MAP, meth, o, [u], st)
                rets += r
                raises += e
            w = NONE if want is None else cat(other, want)
            outcome(rep, R, MAP + '.' + meth, '%s: %s' % (meth, case), S, rets, raises, w)
            rep.absorb(S.ip, '%s: %s' % (meth, case), len(rets) + len(raises))
        scenario(rep, '%s: %s' % (meth, case), go)

    for meth in ('src_to_dst', 'dst_to_src'):
        P = lambda d: d.sym('P', min=1, last_no='/')
        Rr = lambda d, **k: d.sym('rest', nosegs=True, **k)
        one('the prefix itself', R, meth, lambda d: (P(d), P(d), '/'))
        one('prefix/rest', R, meth, lambda d: (P(d), cat(P(d), '/', Rr(d)), cat('/', Rr(d))))
        one('prefix/a LF b', R, meth, lambda d: (P(d), cat(P(d), '/', d.sym('a', no='\n/'), 'x\ny', d.sym('b', no='\n/')),
                                                  cat('/', d.sym('a', no='\n/'), 'x\ny', d.sym('b', no='\n/'))))
        one('prefix/..b', R, meth, lambda d: (P(d), cat(P(d), '/..x', d.sym('b', no='/')), cat('/..x', d.sym('b', no='/'))))
        one('prefix/P/b', R, meth, lambda d: (cat('p', d.sym('Q', no='/')), cat('p', d.sym('Q', no='/'), '/p', d.sym('Q', no='/'), '/', d.sym('b', no='/', notconst=('..',))),
                                              cat('/p', d.sym('Q', no='/'), '/', d.sym('b', no='/', notconst=('..',)))))
        one('prefix continued with another character', R, meth, lambda d: (P(d), cat(P(d), d.chr('y', ne=(), no='/'), d.sym('rest')), None))

        def leave(d, q):
            x = d.chr('x', no='' if q else '/')
            y = d.chr('y', ne=(x,))
            return (cat(d.sym('A'), x, d.sym('Q', min=1, last_no='/')) if q else cat(d.sym('A'), x), cat(d.sym('A'), y, d.sym('rest')), None)
        one('leaves the prefix before its end', R, meth, lambda d: leave(d, True))
        one('leaves the prefix at its last character', R, meth, lambda d: leave(d, False))
        one('ends within the prefix', R, meth, lambda d: (cat(d.sym('A'), d.sym('Q', min=1, last_no='/')), d.sym('A'), None))
        one('prefix with a dot, another character in its place', R, meth,
            lambda d: (cat(d.sym('A'), '.', d.sym('Q', min=1, last_no='/')), cat(d.sym('A'), 'x', d.sym('Q', min=1, last_no='/'), '/', d.sym('rest')), None))
        one('prefix found later in the string', R, meth,
            lambda d: (cat('h', d.sym('Q', last_no='/', min=1)), cat('x', 'h', d.sym('Q', last_no='/', min=1), '/', d.sym('rest')), None))
        c1 = lambda d: d.chr('c', no='/.')
        Q = lambda d: cat('p', d.sym('Q', no='p.', last_no='/', nosegs=True))
        plain = lambda d: d.sym('r', no='p/.')
        one('prefix/', R, meth, lambda d: (P(d), cat(P(d), '/'), '/'))
        one('prefix/rest without slash', R, meth, lambda d: (P(d), cat(P(d), '/', c1(d), d.sym('r', no='/')), cat('/', c1(d), d.sym('r', no='/'))))
        one('prefix//rest', R, meth, lambda d: (P(d), cat(P(d), '//', c1(d), d.sym('r', no='/')), cat('//', c1(d), d.sym('r', no='/'))))
        one('prefix/rest/', R, meth, lambda d: (P(d), cat(P(d), '/', c1(d), d.sym('r', no='/'), '/'), cat('/', c1(d), d.sym('r', no='/'), '/')))
        one('prefix twice', R, meth, lambda d: (Q(d), cat(Q(d), '/x', plain(d), '/', Q(d), '/y', plain(d)), cat('/x', plain(d), '/', Q(d), '/y', plain(d))))
        one('x prefix/rest', R, meth, lambda d: (Q(d), cat('x', Q(d), '/y', plain(d)), None))
        one('prefix x/rest', R, meth, lambda d: (Q(d), cat(Q(d), 'x', plain(d), '/y', plain(d)), None))
        one('dir/prefix', R, meth, lambda d: (Q(d), cat('x', plain(d), '/', Q(d)), None))
        for k in ('/', '//', '///'):
            one('prefix given with %s, plain' % k, R4, meth,
                lambda d: (cat(P(d), k), cat(P(d), '/', c1(d), d.sym('r', no='/')), cat('/', c1(d), d.sym('r', no='/'))))
            one('prefix given with %s' % k, R4, meth, lambda d: (cat(P(d), k), cat(P(d), '/', Rr(d)), cat('/', Rr(d))))

    A = lambda d: d.sym('a')
    B = lambda d: d.sym('b')
    P = lambda d: d.sym('P', min=1, last_no='/')
    for case, f in (('prefix/..', lambda d: cat(P(d), '/..')), ('prefix/../b', lambda d: cat(P(d), '/../', B(d))),
                    ('prefix/a/..', lambda d: cat(P(d), '/', A(d), '/..')), ('prefix/a/../b', lambda d: cat(P(d), '/', A(d), '/../', B(d)))):
        one(case, R2, 'src_to_dst', lambda d: (P(d), f(d), None))

    # several maps
    def many(case, maps, meth, u, want, R=R3, before=(), **kws):
        def go():
            S = Strings(prog)
            d = S.d
            sy = {n: d.sym(n, min=1, no='=', last_no='/') for n in ('P', 'Q', 'D1', 'D2', 'E')}
            for n, c in (('D1', 'd'), ('D2', 'e'), ('E', 'f'), ('P', 'p')):
                sy[n] = cat(c, sy[n])
            for n in ('x', 'y'):
                sy[n] = d.chr(n, no='=/', ne=(('p', 'x'), ('p', 'y')))
            sy['Q'] = d.sym('Q', min=1, no='=/', nosegs=True, notconst=('..',))
            sy['rest'] = d.sym('rest', nosegs=True, no='=')

            def e(spec):
                return cat(*[sy.get(w, w) for w in spec.split()])
            st = S.state()
            ml = S.ip.new_list(st, prog.cls(MAPPER).node, [e(m) for m in maps])
            rets, raises = [], []
            r0, e0 = S.new(MAPPER, [ml], st, kws)
            for b in before:
                r0 = [(s, o) for st, o in r0 for g in S.call(MAPPER, meth, o, [e(b)], st) for s in (x[0] for x in g)]
            for st, o in r0:
                r, x = S.call(MAPPER, meth, o, [e(u)], st)
                rets += r
                raises += x
            outcome(rep, R, MAPPER + '.' + meth, '%s %s: %s%s' % (meth, ' , '.join(maps), u, ' after ' + ', '.join(before) if before else ''), S, rets, raises, e(want) if want else None,
                    errors=('resync.mapper.MapperError',))
            rep.absorb(S.ip, case, len(rets))
        scenario(rep, case, go)
    def words(maps, meth, u, want):
        def go():
            S = Strings(prog)
            st = S.state()
            ml = S.ip.new_list(st, prog.cls(MAPPER).node, [C(m) for m in maps])
            rets, raises = [], []
            r0, e0 = S.new(MAPPER, [ml], st)
            for st, o in r0:
                r, x = S.call(MAPPER, meth, o, [C(u)], st)
                rets += r
                raises += x
            outcome(rep, R6, MAPPER + '.' + meth, '%s %s: %s' % (meth, ', '.join(maps), u), S, rets, raises + e0, None if want is None else C(want),
                    errors=('resync.mapper.MapperError',))
            rep.absorb(S.ip, 'spellings', len(rets))
        scenario(rep, 'spellings', go)
    two = ['P = D1', 'P / Q = D2']
    rev = ['P / Q = D2', 'P = D1']
    for meth in ('src_to_dst', 'dst_to_src'):
        f = (lambda m: m) if meth == 'src_to_dst' else (lambda m: [' '.join(reversed_map(x)) for x in m])
        many('outer first', f(two), meth, 'P / Q / rest', 'D1 / Q / rest')
        many('inner first', f(rev), meth, 'P / Q / rest', 'D2 / rest')
        many('second applies', f(['P x = D1', 'P y = D2']), meth, 'P y / rest', 'D2 / rest')
        many('first applies', f(['P x = D1', 'P y = D2']), meth, 'P x / rest', 'D1 / rest')
        many('none applies', f(['P x = D1', 'P x / Q = D2']), meth, 'P y / rest', None)
        many('three maps', f(['P x = D1', 'P y = D2', 'P = E']), meth, 'P / rest', 'E / rest')
        many('trailing slashes', f(['P / = D1 /', 'P y = D2']), meth, 'P / rest', 'D1 / rest', R=R4)
        many('two arguments', ['P', 'D1'] if meth == 'src_to_dst' else ['D1', 'P'], meth, 'P / rest', 'D1 / rest', R=R4)
        many('one map', f(['P = D1']), meth, 'P / rest', 'D1 / rest', R=R4)
        for maps, u, want in SPELLINGS:
            if '..' in u and meth != 'src_to_dst':
                continue
            words(maps if meth == 'src_to_dst' else ['='.join(reversed(x.split('='))) for x in maps], meth, u, want)
        # the answer does not depend on what was asked before
        answers = (('P / Q / rest', 'D2 / rest'), ('P x / rest', None), ('P', 'D1 /'))
        for b, _ in answers:
            for u, want in answers:
                many('asked before', f(rev), meth, u, want, R=R5, before=(b,))
        for u, want in (('P / Q / rest', 'D1 / Q / rest'), ('P y / rest', 'E / rest'), ('P', 'D1 /')):
            for b in (('P', 'P y / rest'), ('P y / rest', 'P x / rest'), ('P / Q / rest', 'P')):
                many('asked before', f(['P = D1', 'P / Q = D2', 'P y = E']), meth, u, want, R=R5, before=b)


def reversed_map(m):
    a, b = m.split('=')
    return [b.strip(), '=', a.strip()]


def decided(rep, R, fn, case, S, rets, raises, want):
    """Every path returns a value with truth `want`."""
    n = 0
    for st, v in rets:
        node = st.fn.node if st.fn is not None else None
        yes, no = S.ip.truth(st, v, node)
        for r, group in ((True, yes), (False, no)):
            for s in group:
                n += 1
                if r == want:
                    rep.hold(R, case)
                elif aget(s, 'imprecise') is not None or v[0] == 'fresh':
                    rep.undecided(R, case, 'not decided (%s)' % aget(s, 'imprecise'))
                else:
                    rep.fail(R, fn, case, 'answers %s' % r, '', s.path())
    for e in raises:
        n += 1
        if aget(e[0], 'imprecise') is not None:
            rep.undecided(R, case, 'not decided (%s)' % aget(e[0], 'imprecise'))
        else:
            rep.fail(R, fn, case, 'raises %s' % txt(e[1]), '', e[0].path())
    if not n:
        rep.undecided(R, case, 'no path')


# ---------------------------------------------------------------------- C09

# master, query, authority when not strict, when strict
URLS = [('http://%s/d/list.xml' % m, 'http://%s/d/x' % q, ok, ok) for m, q, ok in (
    ('h.org', 'h.org', True), ('h.org', 'a.h.org', True), ('h.org', 'a.b.h.org', True), ('h.org', 'ah.org', False), ('h.org', 'h.org.x', False), ('h.org', 'org', False),
    ('h.org', 'h.orgx', False), ('h.org', 'a.h.org.x', False), ('a.h.org', 'h.org', False), ('a.h.org', 'b.h.org', False), ('h.org', 'hxorg', False), ('h.org', 'axh.org', False),
    ('h.org:80', 'h.org:80', True), ('h.org:80', 'a.h.org:80', True), ('h.org:80', 'h.org', False), ('h.org:80', 'a.h.org', False), ('h.org', 'h.org:80', False),
    ('h.org', 'a.h.org:80', False), ('h.org:80', 'h.org:8080', False), ('h.org:80', 'a.h.org:81', False), ('h', 'h', True), ('h', 'a.h', True), ('h', 'ah', False),
    ('h.org', 'x.org', False), ('h.org', 'h.net', False), ('a-h.org', 'h.org', False), ('h.org', 'a-h.org', False), ('1.2.3.4', '1.2.3.4', True), ('1.2.3.4', '1.2.3.5', False))]
URLS += [('http://h.org' + m, 'http://h.org' + q, True, ok) for m, q, ok in (
    ('/d/l.xml', '/d/x', True), ('/d/l.xml', '/d/e/x', True), ('/d/l.xml', '/d/e/f/x', True), ('/d/l.xml', '/x', False), ('/d/l.xml', '/dd/x', False), ('/d/l.xml', '/d', False),
    ('/d/l.xml', '/d/', True), ('/d/', '/d/x', True), ('/d/', '/d/e/x', True), ('/d/', '/x', False), ('/d/', '/dx/y', False), ('/l.xml', '/x', True), ('/l.xml', '/d/x', True),
    ('/', '/x', True), ('/', '/d/x', True), ('/d/e/l.xml', '/d/x', False), ('/d/e/l.xml', '/d/f/x', False), ('/d/e/l.xml', '/e/x', False), ('/d/e/l.xml', '/d/e/f/x', True),
    ('/d/l.xml', '/e/d/x', False), ('/d/l.xml', '/D/x', False), ('/d/l.xml', '/d.e/x', False), ('/d/l.xml', '/d%2Fx', False), ('/d/l.xml', '/d?x=/d/y', False),
    ('/d/l.xml', '/x#/d/y', False), ('/d/l.xml?a=/b', '/d/x', True), ('/d/l.xml', '/d/x?y', True), ('/l.xml', '/x?y=/z', True), ('/d.x/l', '/dax/l', False),
    ('/d/l.xml', '/d/l.xml', True), ('/d/l.xml', '/d/l.xml/x', True), ('/d/e', '/d/e/x', True), ('/d/e', '/d/f', True), ('/d/e/', '/d/f', False))]
URLS += [(m, q, False, False) for m, q in (
    ('http://h.org/l.xml', 'https://h.org/x'), ('https://h.org/l.xml', 'http://h.org/x'), ('http://h.org/l.xml', 'ftp://h.org/x'), ('http://h.org/l.xml', 'httpx://h.org/x'))]


def rule_C09(prog, rep, tier):
    R = rep.rule('scheme-and-host', """Master and query with unknown schemes and hosts in each relation they can have: authority only
        for the same scheme and the same host or a host that ends in a dot and the master's host.""")
    R2 = rep.rule('strict-path', """Strict mode, unknown paths: authority for paths in the directory of the master or below it, not for
        those in a directory whose name only starts the same, above or beside it; not strict: the path does not matter.""")

    R3 = rep.rule('history', 'The answer does not depend on the questions asked before.')
    R4 = rep.rule('urls', 'A table of URLs with ports, user names, dots, slashes and parameters in different places.')

    def parts(u):
        from urllib.parse import urlparse
        x = urlparse(u)
        # (the path takes the rest, so that the parts put together give the URL)
        return x.scheme, x.netloc, u[len(x.scheme) + 3 + len(x.netloc):], x.path

    def tup(scheme, netloc, path):
        return (scheme, netloc, path, C(''), C(''), C(''))

    def one(R, case, strict, want, mk, how='init'):
        def go():
            S = Strings(prog)
            d = S.d
            m, q = mk(d)[:2]
            prior = mk(d)[2:]
            whole = len(m) == 4

            def url(u):
                u = [C(x) if isinstance(x, str) else x for x in u]
                t = cat(*([u[0], ':'] if u[0] != C('') else []) + (['//', u[1]] if u[1] != C('') else []) + [u[2]])
                if whole:
                    from urllib.parse import urlparse
                    d.urls[t] = tuple(C(x) for x in urlparse(t[2]))
                else:
                    d.urls[t] = tup(*u)
                return t
            M, Q = url(m), url(q)
            rets, raises = [], []
            if how == 'init':
                r0, e0 = S.new(AUTH, [M, C(strict)])
            else:
                r0, e0 = S.new(AUTH, [], kws={'strict': C(strict)})
                r1 = []
                for st, o in r0:
                    for s, _ in S.call(AUTH, 'set_master', o, [M], st)[0]:
                        r1.append((s, o))
                r0 = r1
            for b in prior:
                r0 = [(s, o) for st, o in r0 for s, _ in S.call(AUTH, 'has_authority_over', o, [url(b)], st)[0]]
            for st, o in r0:
                r, e = S.call(AUTH, 'has_authority_over', o, [Q], st)
                rets += r
                raises += e
            name = '%s, %s%s' % (case, 'strict' if strict else 'not strict', '' if how == 'init' else ', by set_master')
            decided(rep, R, AUTH + '.has_authority_over', name, S, rets, raises + e0, want)
            rep.absorb(S.ip, name, len(rets))
        scenario(rep, case, go)

    def host(d):
        return cat('h', d.sym('host', no='hx/.'))

    def path(d, *p):
        return cat(*[x if isinstance(x, str) else x for x in p])
    sc = lambda d: cat('s', d.sym('scheme', no='/:'))
    f = lambda d: d.sym('file', no='/', min=1)
    g = lambda d: d.sym('query file', no='/', min=1)
    a = lambda d: d.sym('dir', min=1, norm=True, first_no='/', last_no='/')
    b = lambda d: d.sym('sub', min=1, norm=True, first_no='/', last_no='/')
    P = lambda d: cat('/', a(d), '/', f(d))
    SD = lambda d: cat('/', a(d), '/', g(d))
    N = lambda d: d.sym('host', min=1)
    for strict in (True, False):
        for how in ('init', 'set_master'):
            one(R, 'same scheme and host', strict, True, lambda d: ((sc(d), N(d), P(d)), (sc(d), N(d), SD(d))), how)
            one(R, 'sub-domain', strict, True, lambda d: ((sc(d), N(d), P(d)), (sc(d), cat(d.sym('label', min=1), '.', N(d)), SD(d))), how)
            one(R, 'sub-sub-domain', strict, True, lambda d: ((sc(d), N(d), P(d)), (sc(d), cat('a.b.', N(d)), SD(d))), how)
            one(R, 'longer host without a dot', strict, False,
                lambda d: ((sc(d), N(d), P(d)), (sc(d), cat(d.sym('label'), d.chr('y', no='.'), N(d)), SD(d))), how)
        for case, u, v in (
                ('other scheme', lambda d: (cat('s', d.sym('scheme')), N(d)), lambda d: (cat('t', d.sym('scheme')), N(d))),
                ('scheme continued', lambda d: (sc(d), N(d)), lambda d: (cat(sc(d), d.chr('y')), N(d))),
                ('scheme shortened', lambda d: (cat(sc(d), d.chr('y')), N(d)), lambda d: (sc(d), N(d))),
                ('no scheme', lambda d: (sc(d), N(d)), lambda d: (C(''), N(d))),
                ('other scheme, sub-domain', lambda d: (cat('s', d.sym('scheme')), N(d)), lambda d: (cat('t', d.sym('scheme')), cat(d.sym('label'), '.', N(d)))),
                ('parent domain', lambda d: (sc(d), cat(d.sym('label', min=1), '.', N(d))), lambda d: (sc(d), N(d))),
                ('host continued', lambda d: (sc(d), host(d)), lambda d: (sc(d), cat(host(d), '.x'))),
                ('other host', lambda d: (sc(d), cat(d.sym('A'), d.chr('x', ne=(('p', 'y'),)), d.sym('tail'))),
                 lambda d: (sc(d), cat(d.sym('B'), d.chr('y', ne=(('p', 'x'),)), d.sym('tail')))),
                ('sibling sub-domain', lambda d: (sc(d), cat(d.sym('A'), d.chr('x', ne=(('p', 'y'),)), '.', d.sym('tail'))),
                 lambda d: (sc(d), cat(d.sym('B'), d.chr('y', ne=(('p', 'x'),)), '.', d.sym('tail')))),
                ('host within', lambda d: (sc(d), host(d)), lambda d: (sc(d), cat('a.', host(d), '.x'))),
                ('host within, first', lambda d: (sc(d), host(d)), lambda d: (sc(d), cat(host(d), '.a.x'))),
                ('master without host', lambda d: (sc(d), C('')), lambda d: (sc(d), cat(host(d), 'x'))),
                ('no host', lambda d: (sc(d), N(d)), lambda d: (sc(d), C('')))):
            one(R, case, strict, False, lambda d: (tuple(u(d)) + (P(d),), tuple(v(d)) + (SD(d),)))
        for m, q, loose, tight in URLS:
            one(R4, '%s over %s' % (m, q), strict, tight if strict else loose, lambda d: (parts(m), parts(q)))
        # paths
        for case, m, q, ok in (
                ('same directory', P, SD, True),
                ('same directory, no file name', P, lambda d: cat('/', a(d), '/'), True),
                ('same file', P, P, True),
                ('master without file name', lambda d: cat('/', a(d), '/'), SD, True),
                ('below', P, lambda d: cat('/', a(d), '/', b(d), '/', g(d)), True),
                ('name starts the same', P, lambda d: cat('/', a(d), d.chr('y', no='/'), '/', g(d)), False),
                ('name starts the same, deeper', P, lambda d: cat('/', a(d), d.chr('y', no='/'), '/', b(d), '/', g(d)), False),
                ('above', lambda d: cat('/', a(d), '/', b(d), '/', f(d)), SD, False),
                ('the directory itself', lambda d: cat('/', b(d), '/x', f(d), '/', d.sym('file2', no='/')), lambda d: cat('/', b(d), '/x', f(d)), False),
                ('other directory', lambda d: cat('/', a(d), '/', d.chr('x', no='/', ne=(('p', 'y'),)), d.sym('t', no='/'), '/', f(d)),
                 lambda d: cat('/', a(d), '/', d.chr('y', no='/', ne=(('p', 'x'),)), d.sym('t', no='/'), '/', g(d)), False),
                ('other directory, deeper', lambda d: cat('/', d.chr('x', no='/', ne=(('p', 'y'),)), d.sym('t', no='/'), '/', f(d)),
                 lambda d: cat('/', d.chr('y', no='/', ne=(('p', 'x'),)), d.sym('t', no='/'), '/', b(d), '/', g(d)), False),
                ('same name elsewhere', P, lambda d: cat('/', d.chr('y', no='/'), '/', a(d), '/', g(d)), None),
                ('root master', lambda d: cat('/', f(d)), SD, True),
                ('root master, root query', lambda d: cat('/', f(d)), lambda d: cat('/', g(d)), True),
                ('root query', P, lambda d: cat('/', g(d)), False),
                ('empty query path', P, lambda d: C(''), False),
                ('empty master path', lambda d: C(''), SD, True)):
            if ok is None:
                continue
            for hk, h1, h2 in (('same host', N, N), ('sub-domain', N, lambda d: cat(d.sym('label', min=1), '.', N(d)))):
                one(R2, '%s, %s' % (case, hk), strict, ok or not strict, lambda d: ((sc(d), h1(d), m(d)), (sc(d), h2(d), q(d))))
            for b in (SD, lambda d: cat('/', g(d))):
                if case == 'other directory, deeper' and b is SD:
                    continue
                one(R3, '%s, asked before about %s' % (case, 'a root file' if b is not SD else 'the same directory'), strict, ok or not strict,
                    lambda d: ((sc(d), N(d), m(d)), (sc(d), N(d), q(d)), (sc(d), N(d), b(d))))
            one(R2, '%s, other host' % case, strict, False, lambda d: ((sc(d), N(d), m(d)), (sc(d), cat(d.sym('label'), d.chr('z', no='.'), N(d)), q(d))))


# ---------------------------------------------------------------------- C10

def rule_C10(prog, rep, tier):
    R = rep.rule('overlap-unsafe', """A map between local directories given by unknown absolute paths, or relative or file: spellings of them, is
        unsafe when they are the same or one contains the other, and safe when they are not or the source is not local.""")
    R3 = rep.rule('spellings', 'A table of pairs of spellings of directories.')

    def url(u):
        from urllib.parse import urlparse
        return C(u), tuple(urlparse(u)), None
    R2 = rep.rule('any-unsafe', 'A set of maps is unsafe if one of its maps is, at whatever position, and safe if none is.')

    def one(R, case, want, mk, spell=None):
        def go():
            S = Strings(prog)
            d = S.d
            s, t = mk(d)
            m = build(S, s, t)
            rets, raises = [], []
            r0, e0 = S.new(MAP, m)
            for st, o in r0:
                r, e = S.call(MAP, 'unsafe', o, [], st)
                rets += r
                raises += e
            decided(rep, R, MAP + '.unsafe', case, S, rets, raises + e0, want)
            rep.absorb(S.ip, case, len(rets))
        scenario(rep, case, go)

    def build(S, s, t):
        """Register the spellings (term, url tuple, absolute path) of both sides."""
        out = []
        for term, url, ab in (s, t):
            if url is not None:
                S.d.urls[term] = tuple(C(x) if isinstance(x, str) else x for x in url)
            if ab is not None:
                S.d.abs[term] = ab
            out.append(term)
        return out

    def D(d, *p):
        return cat('/', *p)
    seg = lambda d, n: d.sym(n, min=1, norm=True, no='/', first_no='c')
    tree = lambda d, n: d.sym(n, min=1, norm=True, first_no='/c', last_no='/')

    def local(d, how, ab, tag):
        """A spelling of the absolute path ab as a mapping source."""
        if how == 'absolute':
            return (ab, ('', '', ab, '', '', ''), ab)
        if how == 'relative':
            r = d.sym('relative path ' + tag, min=1, first_no='/', last_no='/')
            return (r, ('', '', r, '', '', ''), ab)
        if how == 'file uri':
            u = cat('file://', ab)
            # a file: uri is not itself a path: abspath of the whole uri is some directory below the current one
            d.abs[u] = cat('/cwd', d.sym('cwd'), '/file:', ab)
            d.abs[ab] = ab
            return (u, ('file', '', ab, '', '', ''), d.abs[u])
    for hs in ('absolute', 'relative', 'file uri'):
        for hd in ('absolute', 'relative'):
            for case, want, f in (
                    ('same directory', True, lambda d: (D(d, tree(d, 'a')),) * 2),
                    ('destination inside source', True, lambda d: (D(d, tree(d, 'a')), D(d, tree(d, 'a'), '/', tree(d, 'b')))),
                    ('source inside destination', True, lambda d: (D(d, tree(d, 'a'), '/', tree(d, 'b')), D(d, tree(d, 'a')))),
                    ('destination name continues source name', False, lambda d: (D(d, seg(d, 'a')), D(d, seg(d, 'a'), d.chr('y', no='/'), ))),
                    ('deeper, destination name continues source name', False, lambda d: (D(d, tree(d, 'a'), '/', seg(d, 's')), D(d, tree(d, 'a'), '/', seg(d, 's'), d.chr('y', no='/'), ))),
                    ('source name continues destination name', False, lambda d: (D(d, seg(d, 'a'), d.chr('y', no='/')), D(d, seg(d, 'a')))),
                    ('deeper, source name continues destination name', False, lambda d: (D(d, tree(d, 'a'), '/', seg(d, 's'), d.chr('y', no='/')), D(d, tree(d, 'a'), '/', seg(d, 's')))),
                    ('inside a directory whose name continues', False, lambda d: (D(d, seg(d, 'a')), D(d, seg(d, 'a'), d.chr('y', no='/'), '/', tree(d, 'b')))),
                    ('deeper, inside a directory whose name continues', False, lambda d: (D(d, tree(d, 'a'), '/', seg(d, 's')), D(d, tree(d, 'a'), '/', seg(d, 's'), d.chr('y', no='/'), '/', tree(d, 'b')))),
                    ('siblings', False, lambda d: (D(d, tree(d, 'a'), '/', d.chr('x', no='/', ne=(('p', 'y'),)), d.sym('t', no='/')),
                                                   D(d, tree(d, 'a'), '/', d.chr('y', no='/', ne=(('p', 'x'),)), d.sym('t', no='/')))),
                    ('unrelated', False, lambda d: (D(d, d.chr('x', no='/', ne=(('p', 'y'),)), '/', tree(d, 'a')),
                                                    D(d, d.chr('y', no='/', ne=(('p', 'x'),)), '/', tree(d, 'b')))),
                    ('same name elsewhere', False, lambda d: (D(d, d.chr('x', no='/', ne=(('p', 'y'),)), '/', seg(d, 'a')),
                                                              D(d, d.chr('y', no='/', ne=(('p', 'x'),)), '/', seg(d, 'a'))))):
                def mk(d):
                    p, q = f(d)
                    s = local(d, hs, p, 'src')
                    t = local(d, hd, q, 'dst')
                    return s, (t[0], t[1], t[2])
                one(R, '%s (source %s, destination %s)' % (case, hs, hd), want, mk)

    def remote(d):
        p = cat('/', tree(d, 'a'))
        u = cat('http', d.sym('s', no=':'), '://', d.sym('host', min=1, no='/'), p)
        d.abs[u] = cat('/cwd/', u)
        return (u, (cat('http', d.sym('s', no=':')), d.sym('host', min=1, no='/'), p, '', '', ''), d.abs[u]), (p, None, p)
    one(R, 'remote source whose path equals the destination', False, remote)

    def remote_here(d):
        s, t = remote(d)
        cwd = cat('/', d.sym('cwd', min=1, norm=True))
        d.abs[s[0]] = cat(cwd, '/', s[0])
        r = d.sym('relative path of the current directory', min=1, first_no='/', last_no='/')
        return (s[0], s[1], d.abs[s[0]]), (r, None, cwd)
    one(R, 'remote source, destination is the current directory', False, remote_here)

    def go(case, kinds, want):
        def run():
            S = Strings(prog)
            d = S.d
            st = S.state()
            specs = []
            for i, k in enumerate(kinds):
                pre = 'mno'[i]
                p = cat('/', pre, d.sym('a%d' % i, min=1, norm=True, no='/=', last_no='/'))
                q = cat(p, '/b') if k == 'unsafe' else cat('/', pre.upper(), d.sym('q%d' % i, min=1, norm=True, no='/=', last_no='/'))
                d.urls[p] = tuple(C('') if x == '' else x for x in ('', '', p, '', '', ''))
                specs.append(cat(p, '=', q))
            ml = S.ip.new_list(st, prog.cls(MAPPER).node, specs)
            rets, raises = [], []
            r0, e0 = S.new(MAPPER, [ml], st)
            for s, o in r0:
                r, e = S.call(MAPPER, 'unsafe', o, [], s)
                rets += r
                raises += e
            decided(rep, R2, MAPPER + '.unsafe', case, S, rets, raises + e0, want)
            rep.absorb(S.ip, case, len(rets))
        scenario(rep, case, run)
    for a, b, want in (
            ('/a/b', '/a/b', True), ('/a/b/', '/a/b', True), ('/a/b', '/a/b/', True), ('/a/./b', '/a/b', True), ('/a/c/../b', '/a/b', True), ('/a/b', '/a/c/../b', True),
            ('/a//b', '/a/b', True), ('/a/b', '/a/bc', False), ('/a/bc', '/a/b', False), ('/a/b', '/a/b/c', True), ('/a/b/c', '/a/b', True), ('/a/b/c/d', '/a', True),
            ('/a/b', '/a/c', False), ('/a/b/../c', '/a/b', False), ('/a/b', '/a/b/../c', False), ('/a', '/b/a', False), ('/b/a', '/a', False), ('/a', '/A', False),
            ('/a b', '/a b/c', True), ('/a%20b', '/a b', False), ('/a.b', '/a.b/c', True), ('/a.b', '/axb', False), ('/a', '/a.b', False), ('/a-1', '/a', False),
            ('file:///a/b', '/a/b', True), ('file:///a/b', '/a/b/c', True), ('file:///a/b/c', '/a/b', True), ('file:///a/b', '/a/bc', False), ('file:///a/b', '/c', False),
            ('file:/a/b', '/a/b', True), ('http://h.org/a', '/a', False), ('http://h.org', '/a', False), ('https://h.org/a/', '/a/b', False), ('ftp://h.org/a', '/a', False)):
        one(R3, 'map %s to %s' % (a, b), want, lambda d: (url(a), (C(b), None, None)))
    import itertools
    for n in (1, 2, 3):
        for kinds in itertools.product(('safe', 'unsafe'), repeat=n):
            go('maps: ' + ', '.join(kinds), kinds, 'unsafe' in kinds)
