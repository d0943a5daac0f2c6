"""Rules about datetimes (C41)."""
import datetime
import re

from ..state import C, mk_eq
from ..drive import Driver, judge, Pred
from ..stubs import CLOCK, TIMES
from .common import scenario

SOURCE = '''
from resync.w3c_datetime import str_to_datetime, datetime_to_str


def parsed(s):
    return str_to_datetime(s)


def both(a, b):
    return str_to_datetime(a), str_to_datetime(b)


def named(s):
    return str_to_datetime(s, context='name'), str_to_datetime(s, 'name')


def written(x):
    return datetime_to_str(x)


def whole(x):
    return datetime_to_str(x, no_fractions=True), datetime_to_str(x, True)


def current():
    return datetime_to_str(), datetime_to_str('now'), datetime_to_str(dt='now')
'''

ACCESS = '''
NAMES = ('lastmod', 'datetime', 'md_at', 'md_completed', 'md_from', 'md_until')


def fresh(name):
    return getattr(Resource('http://example.org/'), name)


def assigned(name, value, old):
    r = Resource('http://example.org/')
    if old is not None:
        setattr(r, name, old)
    setattr(r, name, value)
    return [getattr(r, n) for n in NAMES]


def container(name, value, old):
    r = ResourceContainer()
    if old is not None:
        setattr(r, name, old)
    setattr(r, name, value)
    return [getattr(r, n) for n in ('md_at', 'md_completed', 'md_from', 'md_until')]
'''
NAMES = ('lastmod', 'datetime', 'md_at', 'md_completed', 'md_from', 'md_until')

FORM = re.compile(r'(\d{4})(?:-(\d\d)(?:-(\d\d)(?:T(\d\d):(\d\d)(?::(\d\d)(\.\d+)?)?(?:Z|([+-])(\d\d):(\d\d)))?)?)?\Z', re.ASCII)


def value(s):
    """(seconds without the offset, offset) of an allowed text, or None."""
    m = FORM.match(s)
    if m is None:
        return None
    y, mo, d, h, mi, sec, frac, sign, oh, om = m.groups()
    try:
        t = datetime.datetime(int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(sec or 0)) - datetime.datetime(1970, 1, 1)
    except ValueError:
        return None
    off = 0
    if sign:
        if int(oh) > 23 or int(om) > 59:
            return None
        off = (int(oh) * 3600 + int(om) * 60) * (1 if sign == '+' else -1)
    return t.days * 86400 + t.seconds + (float(frac) if frac else 0), off


def number(g):
    return g[2] if g[0] == 'c' and isinstance(g[2], (int, float)) and not isinstance(g[2], bool) else None


def calls(t, *names):
    """Whether a term has a call of one of these."""
    if isinstance(t, tuple):
        return len(t) > 1 and t[0] == 'call' and t[1] in names or any(calls(x, *names) for x in t)
    return False


def plain(t):
    """Made of nothing but what the rule knows."""
    if t[0] == 'call':
        return t[1] in ('iso', 'now', 'local time of', 'time of local', 'builtins.int', 'builtins.float') and all(plain(x) for x in t[2])
    if t[0] == 'bin':
        return plain(t[2]) and plain(t[3])
    if t[0] == 'cat':
        return all(plain(x) for x in t[1])
    return t[0] in ('c', 'p')


def inside(t, x):
    return t == x or isinstance(t, tuple) and any(inside(y, x) for y in t)


def near(text, fn):
    """A number for which fn holds; other constants are wrong, anything else is not decided."""
    def p(S, st, g):
        x = number(g)
        if x is None:
            return False if g[0] == 'c' or calls(g, 'local time of', 'time of local') else None
        return bool(fn(x))
    return Pred(text, p)


def same(a, b):
    return abs(a - b) < 2e-6


def rule_C41(prog, rep, tier):
    R = rep.rule('forms', 'Every allowed form, with dates around the ends of months, leap years and the epoch, and fractions of up to twelve digits: the seconds since the epoch with the fraction.')
    R2 = rep.rule('offsets', 'Every offset from -23:59 to +23:59 in every form with a time: its hours and minutes at their weight, in opposite directions for opposite signs.')
    R3 = rep.rule('sign', 'An offset ahead of UTC means an earlier moment.')
    R4 = rep.rule('refused', 'Every text that differs from an allowed one by one or two characters and is not allowed, and every date, time or offset out of range, is refused with a value error.')
    R5 = rep.rule('nothing and now', 'Nothing is read and written as nothing, the empty text is refused, now is the current time in UTC, and everything else is written from its own value in UTC.')
    R6 = rep.rule('attributes', 'The time attributes of resources and lists: nothing stays nothing, and each is its own.')
    site = 'resync.w3c_datetime.str_to_datetime'
    DATES = ('1970-01-01', '1969-12-31', '2000-02-29', '2012-02-29', '2012-12-31', '2013-01-01', '1900-02-28', '2100-12-31', '1601-01-01', '9999-12-31', '2024-06-15')
    BASE = '2012-03-04'

    def driver(name):
        return Driver(prog, SOURCE, 'TIME', budget=20000000, subst=(CLOCK,))

    def go():
        S = driver('forms')
        n = 0
        texts = ['2012', '1970', '0001', '9999', '2012-01', '2012-12', '1999-02'] + list(DATES)
        for d in DATES:
            for t in ('00:00', '23:59', '12:30', '00:00:00', '23:59:59', '12:34:56'):
                texts.append('%sT%sZ' % (d, t))
                if t.count(':') == 2:
                    for f in ('.0', '.5', '.25', '.000001', '.999999', '.123456', '.1', '.000000000000', '.123456789012', '.10', '.050'):
                        texts.append('%sT%s%sZ' % (d, t, f))
                        texts.append('%sT%s%s+00:00' % (d, t, f))
                        texts.append('%sT%s%s-00:00' % (d, t, f))
        for s in texts:
            v = value(s)[0]
            rets, raises = S.call('parsed', [s], S.state())
            form = re.sub(r'\d', '9', s)
            n += judge(rep, S, R, site, s, 'form ' + form, rets, raises, near('about %r' % v, lambda x, v=v: same(x, v)))
        for s in ('2012-03-04T05:06:07.5Z', '2012'):
            v = value(s)[0]
            p = near('about %r' % v, lambda x, v=v: same(x, v))
            rets, raises = S.call('named', [s], S.state())
            n += judge(rep, S, R, site, s + ' with a name for messages', 'with a name', rets, raises, (p, p))
        rep.absorb(S.ip, 'forms', n)
    scenario(rep, 'forms', go)

    def go(form):
        S = driver('offsets')
        n = 0
        for h in range(24):
            for m in range(60):
                if form.count(':') == 1 and m not in (0, 1, 10, 30, 45, 59) and h not in (0, 5, 23):
                    continue
                base = value('%sT%sZ' % (BASE, form))[0]
                w = h * 3600 + m * 60
                a, b = ['%sT%s%s%02d:%02d' % (BASE, form, x, h, m) for x in '+-']
                rets, raises = S.call('both', [a, b], S.state())

                def pair(S, st, g):
                    if not isinstance(g, tuple) or len(g) != 2:
                        return None
                    x, y = number(g[0]), number(g[1])
                    if x is None or y is None:
                        return None if g[0][0] != 'c' and g[1][0] != 'c' else False
                    return same(x - base, w) and same(y - base, -w) or same(x - base, -w) and same(y - base, w)
                n += judge(rep, S, R2, site, '%s and %s' % (a, b), 'offsets after %s' % re.sub(r'\d', '9', form), rets, raises, Pred('%r plus and minus %d' % (base, w), pair))
                if w and h in (0, 1, 11, 23) and m in (0, 30):
                    for s, want in ((a, base - w), (b, base + w)):
                        rets, raises = S.call('parsed', [s], S.state())
                        n += judge(rep, S, R3, site, s, 'offset with %s' % ('plus' if s == a else 'minus'), rets, raises, near('about %r' % want, lambda x: same(x, want)))
        rep.absorb(S.ip, 'offsets after ' + form, n)
    for form in ('12:34', '12:34:56', '12:34:56.25'):
        scenario(rep, 'offsets after ' + form, go, form)

    def go(b):
        S = driver('refused')
        n = 0
        texts = set()
        CH = '019-+:TZtz. x/\t'
        for i in range(len(b) + 1):
            for c in CH:
                texts.add(b[:i] + c + b[i:])
                if i < len(b):
                    texts.add(b[:i] + c + b[i + 1:])
            texts.add(b[:i] + b[i + 1:])
            texts.add(b[:i])
            texts.add(b[i:])
            texts.add(b[:i] + b[i + 2:])
            if i + 1 < len(b):
                texts.add(b[:i] + b[i + 1] + b[i] + b[i + 2:])
        for s in sorted(texts):
            if value(s) is not None or s == '':
                continue
            rets, raises = S.call('parsed', [s], S.state())
            n += judge(rep, S, R4, site, repr(s), 'texts like %s' % b, rets, raises, None, error={'builtins.ValueError'})
        rep.absorb(S.ip, 'texts like ' + b, n)
    for b in ('2012', '2012-03', '2012-03-04', '2012-03-04T05:06Z', '2012-03-04T05:06+07:08', '2012-03-04T05:06:07Z', '2012-03-04T05:06:07-08:09', '2012-03-04T05:06:07.25Z', '2012-03-04T05:06:07.25+08:09'):
        scenario(rep, 'texts like ' + b, go, b)

    def go():
        S = driver('ranges')
        n = 0
        texts = ['2012-%02d-01' % m for m in (0, 13, 20, 99)] + ['2012-%02d' % m for m in (0, 13, 99)] + ['2012-%s' % d for d in ('01-00', '01-32', '02-30', '04-31', '12-99')]
        texts += ['2011-02-29', '2100-02-29', '1900-02-29', '0000', '0000-01-01', '2012-02-30T00:00:00Z', '2011-02-29T00:00Z']
        for tz in ('Z', '+01:00', '-23:59'):
            for t in ('24:00', '25:00', '99:00', '00:60', '12:99', '24:00:00', '12:00:60', '12:00:99', '12:60:00', '24:00:00.5', '12:00:60.5'):
                texts.append('2012-03-04T%s%s' % (t, tz))
        for t in ('12:34', '12:34:56', '12:34:56.5'):
            for sign in '+-':
                for h in range(24, 100):
                    texts.append('2012-03-04T%s%s%02d:00' % (t, sign, h))
                    if h in (24, 99):
                        texts += ['2012-03-04T%s%s%02d:%02d' % (t, sign, h, m) for m in (1, 30, 59, 60)]
                for m in range(60, 100):
                    texts += ['2012-03-04T%s%s%02d:%02d' % (t, sign, h, m) for h in (0, 12, 23)]
        texts += ['2012-W10', '2012-064', '20120304', '2012-3-4', '12-03-04', '2012/03/04', 'March 4 2012', '20120304T050607Z', '2012-03-04T05Z', '2012-03-04T050607Z', '2012-03-04 05:06:07Z', '2012-03-04T05:06:07',
                  '2012-03-04T05:06:07.5', '2012-03-04T05:06', '2012-03-04T05:06:07,5Z', '2012-03-04T05:06:07EST', '2012-03-04T05:06:07 Z', '2012-03-04T05:06:07UTC', ' 2012-03-04', '2012-03-04 ', 'now', 'today', '0', '-1',
                  '2012-03-04T05:06.5Z', '2012-03-04T05:06:07+0100', '2012-03-04T05:06:07+01', '2012-03-04T05:06:07+01:00:00', '2012-03-04T05:06:07+01:00Z', '2012-03-04T05:06:07ZZ', '2012-03-04T05:06:07.5.5Z', '2012-03-04TZ',
                  '2012-03-04Z', '2012-03Z', '2012-03-04T05:06:07.Z', '+2012-03-04', '-2012-03-04', '12012-03-04', '2012-03-04T05:06:07+1:00', '2012-03-04T05:06:07+01:0']
        for s in texts:
            assert value(s) is None, s
            rets, raises = S.call('parsed', [s], S.state())
            n += judge(rep, S, R4, site, repr(s), 'out of range or another form', rets, raises, None, error={'builtins.ValueError'})
        rets, raises = S.call('parsed', [''], S.state())
        n += judge(rep, S, R5, site, 'reading the empty text', 'empty', rets, raises, None, error={'builtins.ValueError'})
        rets, raises = S.call('parsed', [None], S.state())
        n += judge(rep, S, R5, site, 'reading nothing', 'nothing read', rets, raises, None)
        rets, raises = S.call('named', [None], S.state())
        n += judge(rep, S, R5, site, 'reading nothing with a name', 'nothing read', rets, raises, (None, None))
        w = 'resync.w3c_datetime.datetime_to_str'
        rets, raises = S.call('written', [None], S.state())
        n += judge(rep, S, R5, w, 'writing nothing', 'nothing written', rets, raises, None)
        rets, raises = S.call('whole', [None], S.state())
        n += judge(rep, S, R5, w, 'writing nothing without fractions', 'nothing written', rets, raises, (None, None))

        def utc(what):
            def fn(S, st, g):
                if isinstance(g, tuple) and g and isinstance(g[0], tuple):
                    rs = [fn(S, st, x) for x in g]
                    return False if False in rs else None if None in rs else True
                if not plain(g):
                    return None
                if calls(g, 'local time of', 'time of local'):
                    return False
                if g[0] == 'c':
                    return False
                if what == 'now' and not calls(g, 'now') or what not in (None, 'now') and not inside(g, what):
                    return False
                if what != 'now' and calls(g, 'now'):
                    return False
                if g[0] == 'cat' and g[1][-1][0] == 'c' and str(g[1][-1][2]).endswith('Z') and len(g[1]) == 2:
                    return True
                return False
            return Pred('the time in UTC, ending in Z', fn)
        rets, raises = S.call('current', [], S.state())
        p = utc('now')
        n += judge(rep, S, R5, w, 'writing now', 'now', rets, raises, (p, p, p))
        for fn in ('written', 'whole'):
            for x in (0, 0.0, 1, -1, 1.5, 1234567890, -0.5, 0.0000001):
                rets, raises = S.call(fn, [x], S.state())
                p = utc(None)
                n += judge(rep, S, R5, w, 'writing %r' % x, 'known times', rets, raises, p if fn == 'written' else (p, p))
            st = S.state()
            t = S.value(st, 't', 'float')
            st.learn(mk_eq(t, C('now')), False)
            rets, raises = S.call(fn, [t], st)
            p = utc(t)
            n += judge(rep, S, R5, w, 'writing an unknown time', 'unknown time', rets, raises, p if fn == 'written' else (p, p))
        rep.absorb(S.ip, 'ranges, nothing and now', n)
    scenario(rep, 'ranges, nothing and now', go)

    def go():
        S = Driver(prog, ACCESS, 'ACCESS', budget=2000000, subst=(TIMES,))
        n = 0
        for name in NAMES:
            site = 'resync.resource.Resource.' + name
            rets, raises = S.call('fresh', [name], S.state())
            n += judge(rep, S, R6, site, 'new resource', 'resource, %s' % name, rets, raises, None)
            for old in (None, 'u'):
                for new in (None, 't'):
                    st = S.state()
                    good = []
                    for x in (old, new):
                        v = S.value(st, x, 'str', ('now',)) if x else None
                        if v:
                            st.learn(('w3c', v), True)
                        good.append(v)
                    rets, raises = S.call('assigned', [name, good[1], good[0]], st)

                    def kept(S, s, g, v=good[1]):
                        if v is None:
                            return g == C(None)
                        return True if g == ('call', 'w3c', (('call', 'time', (v,), ()),), ()) or g == v else False
                    n += judge(rep, S, R6, site, '%s set to %s after %s' % (name, 'a time' if new else 'nothing', 'another' if old else 'nothing'), 'resource, %s' % name, rets, raises,
                               tuple(Pred('its time' if new else 'nothing', kept) if x == name else None for x in NAMES))
        for name in NAMES[2:]:
            for old in (None, 't'):
                for new in (None, 't'):
                    st = S.state()
                    v = S.value(st, 't', 'str', ('now',)) if new else None
                    o = S.value(st, 'u', 'str', ('now',)) if old else None
                    rets, raises = S.call('container', [name, v, o], st)
                    n += judge(rep, S, R6, 'resync.resource_container.ResourceContainer.' + name, '%s of a list' % name, 'list, %s' % name, rets, raises, tuple(v if x == name else None for x in NAMES[2:]))
        rep.absorb(S.ip, 'attributes', n)
    scenario(rep, 'attributes', go)
