"""Rules about lists and resources: driver programs over unknown values."""
import itertools

from ..state import C, NONE, TRUE, FALSE, mk_eq
from ..drive import Driver, judge, note, match, Pred, texts, is_term
from .. import ext as X
from .common import scenario

RL = 'resync.resource_list.ResourceList'


def uris(S, st, n, names='abcdefgh'):
    """n unknown strings in ascending order."""
    us = [S.sym('uri_' + names[i], 'str') for i in range(n)]
    for u in us:
        st.learn(('isnone', u), False)
        st.learn(('truth', u), True)
    for i in range(n):
        for j in range(i + 1, n):
            st.learn(('lt', us[i], us[j]), True)
            st.learn(mk_eq(us[i], us[j]), False)
    return us


# ---------------------------------------------------------------------- C18

C18 = '''
def compare(dst, src, dcls, scls, kind):
    d = ResourceList(resources_class=dcls)
    s = ResourceList(resources_class=scls)
    for uri, md5, ts, length in dst:
        d.add(Resource(uri=uri, md5=md5, timestamp=ts, length=length, path='dst'))
    for uri, md5, ts, length in src:
        s.add(Resource(uri=uri, md5=md5, timestamp=ts, length=length, path='src', change=kind))
    same, updated, deleted, created = d.compare(s)
    return (show(same), show(updated), show(deleted), show(created), len(d), len(s), show(d), show(s))


def show(l):
    return [(r.uri, r.md5, r.path) for r in l]
'''


# md5, timestamp and length of the source where the destination has m1, 1000 and 5
PAIRS = {'=': ('m1', 1000.0, 5), '#': ('m2', 1000.0, 5), '<': ('m1', 10.0, 5), '>': ('m1', 100000.0, 5), 'l': ('m1', 1000.0, 6), '-': ('m1', None, 5)}


def interleavings(m, n):
    """Relative orders of two ascending sequences: strings over d (dst only), s (src only), b (both)."""
    if m == 0 and n == 0:
        yield ''
        return
    if m:
        for r in interleavings(m - 1, n):
            yield 'd' + r
    if n:
        for r in interleavings(m, n - 1):
            yield 's' + r
    if m and n:
        for r in interleavings(m - 1, n - 1):
            yield 'b' + r


def rule_C18(prog, rep, tier):
    R = rep.rule('classified', """Lists with unknown URIs in every relative order (all interleavings of up to 3 and 3 resources, every
        choice of equal and different pairs): each resource is in exactly the class of its case, taken from the right side.""")
    R2 = rep.rule('inputs-kept', 'The compared lists are unchanged.')
    top = 4 if tier == 'thorough' else 3
    S = Driver(prog, C18, 'C18', budget=4000000)

    def one(order, pair, dcls, scls, rev):
        st = S.state()
        us = uris(S, st, len(order))
        dst, src, same, upd, dele, crea = [], [], [], [], [], []
        k = 0
        for u, c in zip(us, order):
            here, there = ('m1', 1000.0, 5), ('m1', 1000.0, 5)
            if c == 'd':
                dst.append((u,) + here)
                dele.append((u, 'm1', 'dst'))
            elif c == 's':
                src.append((u,) + there)
                crea.append((u, 'm1', 'src'))
            else:
                there = PAIRS[pair[k]]
                dst.append((u,) + here)
                src.append((u,) + there)
                if pair[k] == '=':
                    same.append((u, 'm1', None))
                else:
                    upd.append((u, there[0], 'src'))
                k += 1
        d0 = [(x[0], x[1], 'dst') for x in dst]
        s0 = [(x[0], x[1], 'src') for x in src]
        if rev:
            dst.reverse()
            src.reverse()
        case = 'order %s, pairs %s, %s/%s%s' % (order, ''.join(pair), dcls[-7:], scls[-7:], ', added in reverse order' if rev else '')
        group = 'destination %s, source %s: %s' % (dcls, scls, ''.join(sorted(set(order + ''.join(pair)) - {'b'})))
        g = ('cls', prog.cls('resync.resource_list.' + dcls).qualname), ('cls', prog.cls('resync.resource_list.' + scls).qualname)
        rets, raises = S.call('compare', [dst, src, g[0], g[1], 'updated' if rev else None], st)
        fn = RL + '.compare'

        def ordered(s, want, cls, r):
            """Contents in whatever order."""
            return Pred(texts(tuple(want)), lambda S, st, got: any_order(S, st, got, want))
        for s, v in rets:
            p = S.plain(s, v)
            res = None
            if not isinstance(p, tuple) or len(p) != 8:
                res = ('result is %s' % texts(p), False)
            else:
                for got, want, nm in zip(p[:4], (same, upd, dele, crea), ('same', 'updated', 'deleted', 'created')):
                    res = res or any_order(S, s, got, want, nm)
            note(rep, S, R, fn, case, group, s, res)
            if isinstance(p, tuple) and len(p) == 8:
                res = match(S, s, p[4], len(dst), 'destination size') or match(S, s, p[5], len(src), 'source size') \
                    or any_order(S, s, p[6], d0, 'destination list') or any_order(S, s, p[7], s0, 'source list')
                note(rep, S, R2, fn, case, group, s, res)
        for s, e in raises:
            note(rep, S, R, fn, case, group, s, ('raises %s' % texts(e), True))
        return len(rets) + len(raises)
    paths = 0
    for m in range(top + 1):
        for n in range(top + 1):
            def go(m=m, n=n):
                paths = 0
                for order in interleavings(m, n):
                    for pair in itertools.product('=#' if m + n > 3 or order.count('b') > 1 else '=#<>l-', repeat=order.count('b')):
                        combos = (('ResourceListDict', 'ResourceListDict', False), ('ResourceListOrdered', 'ResourceListOrdered', True),
                                  ('ResourceListDict', 'ResourceListOrdered', True))
                        if m + n > 4 and tier != 'thorough':
                            combos = combos[1:2]
                        for dc, sc, rev in combos:
                            paths += one(order, pair, dc, sc, rev)
                rep.absorb(S.ip, '%d and %d resources' % (m, n), paths)
            scenario(rep, '%d and %d resources' % (m, n), go)


def any_order(S, st, got, want, what='list'):
    """Both sequences hold the same items (None in a wanted item matches anything)."""
    if not isinstance(got, tuple) or is_term(got):
        return '%s is %s' % (what, texts(got)), False
    left = list(got)
    for w in want:
        for x in left:
            if isinstance(x, tuple) and len(x) == len(w) and all(b is None or match(S, st, a, b) is None for a, b in zip(x, w)):
                left.remove(x)
                break
        else:
            return '%s is %s instead of %s' % (what, texts(got), texts(tuple(tuple('*' if y is None else y for y in x) for x in want))), True
    if left:
        return '%s has the extra %s' % (what, texts(left[0])), True
    return None


# ---------------------------------------------------------------------- oracles over facts

def completions(S, st, fn):
    """All values fn(ask) can have when undecided atoms are answered either way."""
    out = []

    def go(s, answers):
        class Need(Exception):
            pass
        seen = []

        def ask(atom):
            d = s.decide(atom)
            if d is not None:
                return d
            raise_need.append(atom)
            raise Need()
        raise_need = []
        try:
            out.append((fn(ask, s), s))
        except Need:
            a = raise_need[-1]
            for v in (True, False):
                s2 = s.assume(a, v)
                if s2 is not None:
                    go(s2, answers)
    go(st, ())
    return out


# ---------------------------------------------------------------------- C19

C19 = '''
def eq(a, b):
    return mk(a) == mk(b)

def ne(a, b):
    return mk(a) != mk(b)

def equal(a, b, delta):
    return mk(a).equal(mk(b), delta=delta)

def mk(x):
    uri, ts, md5, sha1, sha256, length = x
    return Resource(uri=uri, timestamp=ts, md5=md5, sha1=sha1, sha256=sha256, length=length)
'''


def rule_C19(prog, rep, tier):
    R = rep.rule('equality', """For every path of the comparison of two resources with unknown URI, digests and length (given or not) and
        timestamps at every distance class: the result is the one of the decision table for all inputs the path is taken for.""")
    fn = 'resync.resource.Resource.equal'
    attrs = ('md5', 'sha1', 'sha256', 'length')

    def one(case, op, ta, tb, close, delta=None):
        def go():
            S = Driver(prog, C19, 'C19', budget=400000, paths=True)
            st = S.state()
            T = S.sym('T', 'float')
            st.learn(('isnone', T), False)

            def tm(k):
                return None if k is None else (T if k == 0 else ('bin', '+', T, C(k)))
            v = {}
            for side in 'ab':
                v[side] = [S.sym('uri_' + side, 'str'), tm(ta if side == 'a' else tb)]
                st.learn(('isnone', v[side][0]), False)
                st.learn(('truth', v[side][0]), True)
                v[side] += [S.sym('%s_%s' % (x, side), 'str' if x != 'length' else 'int') for x in attrs]

            def want(ask, s):
                if not ask(mk_eq(v['a'][0], v['b'][0])):
                    return False
                if not close:
                    return False
                for i, x in enumerate(attrs):
                    p, q = v['a'][2 + i], v['b'][2 + i]
                    if x != 'length':
                        # a digest that is given is not empty
                        bad = [y for y in (p, q) if s.facts.get(('truth', y)) is False and s.decide(('isnone', y)) is not True]
                        if bad:
                            for y in bad:
                                if not ask(('isnone', y)):
                                    return None
                    if not ask(('isnone', p)) and not ask(('isnone', q)) and not ask(mk_eq(p, q)):
                        return False
                return True
            args = [tuple(v['a']), tuple(v['b'])]
            if op == 'equal':
                args.append(delta)
            rets, raises = S.call(op, args, st)
            n = 0
            for s, r in rets:
                t, f = S.ip.truth(s, r)
                for res, ss in ((True, t), (False, f)):
                    for z in ss:
                        n += 1
                        got = res != (op == 'ne')
                        bad = [c for c in completions(S, z, want) if c[0] is not None and c[0] != got]
                        note(rep, S, R, fn, case, case, z, ('%s although the decision table gives %s (%s)' % (
                            'equal' if got else 'not equal', 'equal' if bad[0][0] else 'not equal', facts_text(bad[0][1])), True) if bad else None)
            for s, e in raises:
                note(rep, S, R, fn, case, case, s, ('raises %s' % texts(e), True))
            rep.absorb(S.ip, case, n)
        scenario(rep, case, go)

    one('no timestamps', 'eq', None, None, True)
    one('only the first has a timestamp', 'eq', 0, None, False)
    one('only the second has a timestamp', 'eq', None, 0, False)
    for k in (0, 0.25, 0.5, 0.999, -0.25, -0.5, -0.999):
        one('timestamps %s apart' % k, 'eq', 0, k, True)
    for k in (1.0, 1.001, 2.0, 86400, -1.0, -1.001, -2.0, -86400):
        one('timestamps %s apart' % k, 'eq', 0, k, False)
    for k in (0, 0.5, 1.0):
        one('!= with timestamps %s apart' % k, 'ne', 0, k, k < 1)
    for d, k in ((0.5, 0.25), (0.5, 0.5), (0.5, -0.75), (10, 9.5), (10, 10), (10, -9.5), (3600.0, 3600.5), (0.0, 0.25)):
        one('tolerance %s, timestamps %s apart' % (d, k), 'equal', 0, k, abs(k) < d, d)


def facts_text(s):
    out = []
    for a, v in sorted(s.facts.items(), key=repr):
        if a[0] in ('isnone', 'eq', 'truth') and len(out) < 8 and (a[0] != 'truth'):
            out.append(X.atom_text(a, v))
    return '; '.join(out)


# ---------------------------------------------------------------------- C20

C20 = '''
def dupes(entries):
    l = ChangeList()
    for uri, change, tag in entries:
        l.add(Resource(uri=uri, change=change, path=tag))
    n = l.prune_dupes()
    return n, [r.path for r in l], len(l)

def before(entries, t, spec):
    l = ChangeList()
    for uri, ts, dt, tag in entries:
        l.add(Resource(uri=uri, change='updated', timestamp=ts, ts_datetime=dt, path=tag))
    n = l.prune_updates_before(t, spec_version=spec)
    return n, [r.path for r in l], len(l)

def before_default(entries, t):
    l = ChangeList()
    for uri, ts, dt, tag in entries:
        l.add(Resource(uri=uri, change='updated', timestamp=ts, ts_datetime=dt, path=tag))
    n = l.prune_updates_before(t)
    return n, [r.path for r in l], len(l)
'''


def partitions(n):
    """Restricted growth strings."""
    def go(k, m):
        if k == n:
            yield ()
            return
        for x in range(m + 1):
            for r in go(k + 1, max(m, x + 1)):
                yield (x,) + r
    return go(0, 0)


def rule_C20(prog, rep, tier):
    R = rep.rule('by-time', """Lists of up to three changes, each earlier, at, later than the start or without time, the other time telling the
        opposite: exactly the earlier ones go, in either version; a missing time is an error.""")
    R2 = rep.rule('duplicates', """Lists of up to four changes with every coincidence of URIs and every choice of change types: the last entry
        per URI stays, none if first created and finally deleted; order and count.""")
    CL = 'resync.change_list.ChangeList'
    top = 5 if tier == 'thorough' else 4
    types = ('created', 'updated', 'deleted')
    for n in range(top + 1):
        for part in partitions(n):
            def go(n=n, part=part):
                S = Driver(prog, C20, 'C20', budget=4000000)
                paths = 0
                single = [part.count(p) == 1 for p in part]
                mid = [not single[i] and i != part.index(part[i]) and i != n - 1 - part[::-1].index(part[i]) for i in range(n)]
                if n > 3:
                    alt = [('deleted',) if single[i] else (('updated', 'deleted') if mid[i] else types) for i in range(n)]
                else:
                    alt = [types] * n
                for ch in itertools.product(*alt):
                    st = S.state()
                    us = uris(S, st, n)
                    ent = [(us[part[i]], ch[i], 'e%d' % i) for i in range(n)]
                    keep = []
                    for i in range(n):
                        idx = [j for j in range(n) if part[j] == part[i]]
                        if i == idx[-1] and not (len(idx) > 1 and ch[i] == 'deleted' and ch[idx[0]] == 'created'):
                            keep.append('e%d' % i)
                    case = 'changes %s' % ', '.join('%s:%s' % ('abcdef'[p], c) for p, c in zip(part, ch))
                    group = 'URIs %s' % (''.join('abcdef'[p] for p in part) or '(none)')
                    rets, raises = S.call('dupes', [ent], st)
                    paths += judge(rep, S, R2, CL + '.prune_dupes', case, group, rets, raises, (n - len(keep), tuple(keep), len(keep)))
                rep.absorb(S.ip, 'duplicates %s' % ''.join('abcdef'[p] for p in part), paths)
            scenario(rep, 'duplicates %s' % (part,), go)

    for fn, spec in (('before', '1.1'), ('before', '1.0'), ('before_default', None)):
        for n in range(4):
            def go(fn=fn, spec=spec, n=n):
                S = Driver(prog, C20, 'C20', budget=2000000)
                paths = 0
                for rel in itertools.product('<=>n', repeat=n):
                    if 'n' in rel and n == 3 and rel[0] != 'n' and rel.count('n') > 1:
                        continue
                    st = S.state()
                    us = uris(S, st, max(n, 1))
                    T = S.sym('start', 'float')
                    st.learn(('isnone', T), False)
                    early, late = ('bin', '+', T, C(-0.5)), ('bin', '+', T, C(0.5))
                    ent = []
                    for i, k in enumerate(rel):
                        used = {'<': early, '=': T, '>': late, 'n': None}[k]
                        other = {'<': late, '=': early, '>': early, 'n': late}[k]
                        if i == 2 and k != 'n':
                            other = None
                        ent.append((us[0], used, other, 'e%d' % i) if spec == '1.0' else (us[0], other, used, 'e%d' % i))
                    keep = tuple('e%d' % i for i, k in enumerate(rel) if k in '=>')
                    case = 'version %s, times %s' % (spec or '(default)', ' '.join(rel) or '(none)')
                    group = 'version %s, %d entries%s' % (spec or '(default)', n, ', a time missing' if 'n' in rel else '')
                    rets, raises = S.call(fn, [ent, T] + ([spec] if spec else []), st)
                    paths += judge(rep, S, R, CL + '.prune_updates_before', case, group, rets, raises, (n - len(keep), keep, len(keep)),
                                   error=('builtins.Exception',) if 'n' in rel else None)
                rep.absorb(S.ip, 'by time, %s, %d' % (spec, n), paths)
            scenario(rep, 'by time %s %d' % (spec, n), go)


# ---------------------------------------------------------------------- C21, C22

C21 = '''
def make(kind):
    if kind == 'ResourceListDict':
        return ResourceListDict()
    if kind == 'ResourceListOrdered':
        return ResourceListOrdered()
    if kind == 'ResourceSet':
        return ResourceSet()
    if kind == 'CapabilitySet':
        return CapabilitySet()
    if kind == 'ResourceList':
        return ResourceList()
    if kind == 'ResourceList(ordered)':
        return ResourceList(resources_class=ResourceListOrdered)
    if kind == 'CapabilityList':
        return CapabilityList()
    if kind == 'SourceDescription':
        return SourceDescription()


def add(kind, have, new, how, replace):
    l = make(kind)
    for uri, tag in have:
        l.add(Resource(uri=uri, path=tag, md5='x', timestamp=1000.0))
    items = [Resource(uri=uri, path=tag, md5=md5) if md5 == 'x' else
             Resource(uri=uri, path=tag, md5=md5, change='updated', timestamp=2000.0, ts_datetime=3000.0, length=7) for uri, tag, md5 in new]
    err = 'none'
    try:
        if how == 'one':
            for i in items:
                if replace is None:
                    l.add(i)
                else:
                    l.add(i, replace=replace)
        elif how == 'positional':
            for i in items:
                l.add(i, replace)
        else:
            if how == 'tuple':
                items = tuple(items)
            elif how == 'generator':
                items = (i for i in items)
            elif how == 'ChangeList':
                items = ResourceContainer(resources=items)
            if replace is None:
                l.add(items)
            else:
                l.add(items, replace=replace)
    except (ResourceListDupeError, ResourceSetDupeError):
        err = 'duplicate'
    return err, [(r.uri, r.path) for r in l]


def iterate(kind, items):
    l = make(kind)
    for uri, cap in items:
        l.add(Resource(uri=uri, capability=cap))
    first = [r.uri for r in l]
    i1 = iter(l)
    a = []
    x = next(i1, None)
    if x is not None:
        a.append(x.uri)
    i2 = iter(l)
    b = []
    y = next(i2, None)
    if y is not None:
        b.append(y.uri)
    full = [r.uri for r in l]
    for r in i1:
        a.append(r.uri)
    for r in i2:
        b.append(r.uri)
    nested = []
    if len(items) < 4:
        for r in l:
            for s in l:
                nested.append((r.uri, s.uri))
    again = [r.uri for r in l]
    n = 0
    for r in items:
        n += 1
    return first, a, b, full, nested, again


def sizes(kind, items):
    l = make(kind)
    for uri, cap in items:
        l.add(Resource(uri=uri, capability=cap))
    before = len(l)
    for r in l:
        pass
    for r in l:
        break
    return before, len(l), [r.uri for r in l]


def changed(kind, items, i):
    l = make(kind)
    for uri, cap in items[:-1]:
        l.add(Resource(uri=uri, capability=cap, path='old'))
    for r in l:
        pass
    uri, cap = items[i]
    l.add(Resource(uri=uri, capability=cap, path='new'), replace=True)
    first = [(r.uri, r.path) for r in l]
    uri, cap = items[-1]
    l.add(Resource(uri=uri, capability=cap, path='old'))
    return first, [(r.uri, r.path) for r in l], len(l)
'''

KEYED = (('ResourceListDict', 'resync.resource_list.ResourceListDict'), ('ResourceListOrdered', 'resync.resource_list.ResourceListOrdered'),
         ('ResourceSet', 'resync.resource_set.ResourceSet'), ('CapabilitySet', 'resync.capability_list.CapabilitySet'),
         ('ResourceList', RL), ('ResourceList(ordered)', RL), ('CapabilityList', 'resync.capability_list.CapabilityList'),
         ('SourceDescription', 'resync.source_description.SourceDescription'))


def rule_C21(prog, rep, tier):
    R = rep.rule('no-duplicates', """Adding URIs to every keyed list and storage class, singly and from iterables, present before or not: a
        duplicate raises the duplicate error and changes no entry; others are added.""")
    R2 = rep.rule('replace', 'With replace the new resource takes the place of the one with its URI, and the others stay.')
    for kind, q in KEYED:
        whole = 'Dict' not in kind and 'Ordered' not in kind and 'Set' not in kind
        for how in ('one', 'positional') + (('list', 'tuple', 'generator', 'ChangeList') if whole else ()):
            def go(kind=kind, q=q, how=how):
                S = Driver(prog, C21, 'C21', budget=2000000)
                paths = 0
                for have in ((), ('a',), ('a', 'b'), ('b', 'a')):
                    for new in (('a',), ('A',), ('B',), ('b', 'A'), ('c', 'a'), ('c', 'D'), ('b', 'B'), ('d', 'A', 'c'), ()):
                        for rp in ((None, False, True) if how != 'positional' else (False, True)):
                            st = S.state()
                            us = dict(zip('abcd', uris(S, st, 4)))
                            h = [(us[x], 'old') for x in have]
                            # an upper case letter stands for a resource that is not equal to the one before
                            w = [(us[x.lower()], 'new%d' % i) for i, x in enumerate(new)]
                            w3 = [(us[x.lower()], 'new%d' % i, 'x' if x.islower() else 'y') for i, x in enumerate(new)]
                            case = '%s: %s added %s to %s, replace=%s' % (kind, ' '.join(new) or 'nothing', how, ' '.join(have) or 'the empty list', rp)
                            group = '%s, %s' % (kind, how)
                            rets, raises = S.call('add', [kind, h, w3, how, rp], st)
                            fn = q + '.add'
                            cur = dict(h)
                            dup = None
                            for i, (u, t) in enumerate(w):
                                if u in cur and not rp:
                                    dup = i
                                    break
                                cur[u] = t
                            for s, v in rets:
                                p = S.plain(s, v)
                                if not (isinstance(p, tuple) and len(p) == 2):
                                    note(rep, S, R, fn, case, group, s, ('result %s' % texts(p), False))
                                    continue
                                if dup is None:
                                    res = match(S, s, p[0], 'none', 'error') or any_order(S, s, p[1], [(u, t) for u, t in cur.items()], 'contents')
                                    note(rep, S, R2 if rp else R, fn, case, group, s, res)
                                else:
                                    res = match(S, s, p[0], 'duplicate', 'error')
                                    if not res:
                                        res = any_order(S, s, p[1], list(cur.items()), 'contents')
                                        if res and not any_order(S, s, p[1], h, 'contents'):
                                            res = None
                                    note(rep, S, R, fn, case, group, s, res)
                            for s, e in raises:
                                note(rep, S, R2 if rp else R, fn, case, group, s, ('raises %s' % texts(e), True))
                            paths += len(rets) + len(raises)
                rep.absorb(S.ip, '%s %s' % (kind, how), paths)
            scenario(rep, '%s %s' % (kind, how), go)


ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump',
         'resourcelist-archive', 'resourcedump-archive', 'changelist-archive', 'changedump-archive']


def rule_C22(prog, rep, tier):
    R = rep.rule('order', 'Iteration gives every resource once in canonical order: by URI, in the order added, or by capability.')
    R2 = rep.rule('independent', 'Iterations in progress at the same time and iterations one after the other all give the same complete sequence.')
    R3 = rep.rule('no-change', 'The list has the same entries after complete and abandoned iterations.')

    def one(S, kind, q, caps, perm):
        """caps[i] is the capability of the resource with the i-th smallest URI; perm the order of adding."""
        n = len(caps)
        st = S.state()
        us = uris(S, st, max(n, 1))
        items = [(us[i], caps[i]) for i in perm]
        if kind in ('ResourceListOrdered', 'ResourceList(ordered)'):
            wants = [[us[i] for i in perm]]
        elif kind in ('CapabilitySet', 'CapabilityList'):
            head = [us[i] for c in ORDER for i in range(n) if caps[i] == c]
            un = []
            for i in perm:
                if caps[i] not in ORDER and caps[i] not in un:
                    un.append(caps[i])
            wants = [head + [us[i] for c in o for i in range(n) if caps[i] == c] for o in itertools.permutations(un)]
        else:
            wants = [us[:n]]
        case = '%s: added %s' % (kind, ' '.join('%s%s' % ('abcdefgh'[i], '(%s)' % caps[i] if 'Cap' in kind else '') for i in perm) or 'nothing')
        group = '%s, %d entries' % (kind, n)
        rets, raises = S.call('iterate', [kind, items], st)
        fn = q + '.__iter__'
        for s, v in rets:
            p = S.plain(s, v)
            if not (isinstance(p, tuple) and len(p) == 6):
                note(rep, S, R, fn, case, group, s, ('result %s' % texts(p), False))
                continue
            best = None
            for want in wants:
                w = tuple(want)
                res = match(S, s, p[0], w, 'iteration')
                if best is None or not res:
                    best = (res, w)
            note(rep, S, R, fn, case, group, s, best[0])
            w = p[0]
            res = match(S, s, p[1], w, 'first of two iterations') or match(S, s, p[2], w, 'second of two iterations') \
                or match(S, s, p[3], w, 'iteration inside two others') \
                or match(S, s, p[4], tuple((x, y) for x in w for y in w) if n < 4 else (), 'nested iteration') or match(S, s, p[5], w, 'last iteration') \
                if isinstance(w, tuple) else ('result %s' % texts(w), False)
            note(rep, S, R2, fn, case, group, s, res)
        for s, e in raises:
            note(rep, S, R2, fn, case, group, s, ('raises %s' % texts(e), True))
        st = S.state()
        uris(S, st, max(n, 1))
        r2, x2 = S.call('sizes', [kind, items], st)
        for s, v in r2:
            p = S.plain(s, v)
            note(rep, S, R3, fn, case, group, s, match(S, s, p, (n, n, Pred('the same entries', lambda S, s, got: any_order(
                S, s, tuple((x,) for x in got), [(u,) for u in us[:n]]) is None)), 'sizes'))
        for s, e in x2:
            note(rep, S, R3, fn, case, group, s, ('raises %s' % texts(e), True))
        return len(rets) + len(raises) + len(r2) + len(x2)

    R4 = rep.rule('current', 'An iteration gives the entries as they are: resources replaced and added since earlier iterations included.')

    def after(S, kind, q, n, perm, i):
        st = S.state()
        us = uris(S, st, n)
        items = [(us[k], 'resourcelist') for k in perm]
        case = '%s: added %s, then %s replaced and the last one added' % (kind, ' '.join('abcdefgh'[k] for k in perm), 'abcdefgh'[perm[i]])
        rets, raises = S.call('changed', [kind, items, C(i)], st)
        ordered = kind in ('ResourceListOrdered', 'ResourceList(ordered)')
        full = [(us[k], C('new' if k == perm[i] else 'old')) for k in (perm if ordered else range(n))]
        part = tuple(x for x in full if x[0] != us[perm[-1]])
        for s, v in rets:
            p = S.plain(s, v)
            if isinstance(p, tuple) and len(p) == 3:
                note(rep, S, R4, q + '.__iter__', case, '%s, %d entries' % (kind, n), s,
                     match(S, s, p[0], part, 'iteration after replacing') or match(S, s, p[1], tuple(full), 'iteration after adding')
                     or match(S, s, p[2], n, 'length'))
            else:
                note(rep, S, R4, q + '.__iter__', case, '%s, %d entries' % (kind, n), s, ('result %s' % texts(p), False))
        for s, e in raises:
            note(rep, S, R4, q + '.__iter__', case, '%s, %d entries' % (kind, n), s, ('raises %s' % texts(e), True))
        return len(rets) + len(raises)

    for kind, q in KEYED:
        def go(kind=kind, q=q):
            S = Driver(prog, C21, 'C21', budget=4000000)
            paths = 0
            for n in (2, 3):
                for perm in itertools.permutations(range(n)):
                    for i in range(n - 1):
                        paths += after(S, kind, q, n, perm, i)
            rep.absorb(S.ip, kind + ' changed', paths)
        scenario(rep, kind + ' changed', go)
    for kind, q in KEYED:
        def go(kind=kind, q=q):
            S = Driver(prog, C21, 'C21', budget=4000000)
            paths = 0
            for n in range(4):
                for perm in itertools.permutations(range(n)):
                    paths += one(S, kind, q, ['resourcelist'] * n, perm)
            rep.absorb(S.ip, kind, paths)
        scenario(rep, kind, go)
    for kind, q in KEYED:
        if 'Cap' not in kind:
            continue
        for a in range(len(ORDER) + 2):
            if kind != 'CapabilitySet' and a not in (2, 8):
                continue

            def go(kind=kind, q=q, a=a):
                S = Driver(prog, C21, 'C21', budget=4000000)
                names = ORDER + ['other', None]
                paths = 0
                for b in range(len(names)):
                    for perm in ((0, 1), (1, 0)):
                        paths += one(S, kind, q, [names[a], names[b]], perm)
                rep.absorb(S.ip, '%s: %s and each' % (kind, names[a]), paths)
            scenario(rep, '%s %d' % (kind, a), go)

        def go(kind=kind, q=q):
            S = Driver(prog, C21, 'C21', budget=4000000)
            paths = 0
            for caps, perm in ((['changelist', 'other', 'resourcelist', 'changelist'], (3, 1, 0, 2)),
                               (['zzz', 'other', 'resourcedump', 'other'], (3, 2, 1, 0)),
                               (ORDER[::-1], (0, 1, 2, 3, 4, 5, 6, 7)), (ORDER, (7, 5, 3, 1, 6, 4, 2, 0)),
                               ([None, 'changelist-archive', 'changelist', None], (0, 3, 1, 2))):
                paths += one(S, kind, q, caps, perm)
            rep.absorb(S.ip, '%s: several' % kind, paths)
        scenario(rep, '%s several' % kind, go)


# ---------------------------------------------------------------------- C23

C23 = '''
def construct(c):
    return Resource(uri='u', change=c).change

def assign(c):
    r = Resource(uri='u')
    r.change = c
    return r.change

def reassign(c):
    r = Resource(uri='u', change='created')
    r.change = c
    return r.change

def by_name(c):
    r = Resource(uri='u')
    setattr(r, 'change', c)
    return r.change

class Like(object):
    pass

def copied(c):
    o = Like()
    o.uri = 'u'
    o.change = c
    return Resource(resource=o).change

def overridden(c):
    return Resource(resource=Resource(uri='u', change='updated'), change=c).change


def add(have, new, how, spec):
    l = ChangeList()
    for u, c in have:
        l.add(Resource(uri=u, change=c))
    items = [Resource(uri=u, change=c) for u, c in new]
    err = 'none'
    try:
        if how == 'one':
            for i in items:
                l.add(i)
        elif how == 'list':
            l.add(items)
        elif how == 'generator':
            l.add((i for i in items))
        elif how == 'if_changed':
            for i in items:
                l.add_if_changed(i)
        elif how == 'container':
            l.add(ResourceContainer(resources=items))
        elif how == 'changed':
            l.add_changed_resources(items)
        elif how == 'ResourceList':
            rl = ResourceList()
            rl.add(items)
            l.add_changed_resources(rl)
    except ChangeTypeError:
        err = 'change type'
    return err, [(r.uri, r.change) for r in l]


def record(items, change, how):
    l = ChangeList()
    orig = []
    for u, c, ts, md5, length, dt in items:
        orig.append(Resource(uri=u, change=c, timestamp=ts, md5=md5, length=length, ts_datetime=dt))
    src = orig
    if how == 'ResourceList':
        src = ResourceList()
        src.add(orig)
    if how == 'default':
        l.add_changed_resources(src)
    else:
        l.add_changed_resources(src, change=change)
    return ([(r.uri, r.change, r.timestamp, r.md5, r.length, r.ts_datetime) for r in l],
            [(r.uri, r.change, r.timestamp, r.md5, r.length, r.ts_datetime) for r in orig])
'''


def rule_C23(prog, rep, tier):
    R = rep.rule('validated', """However the change attribute is set - constructor, assignment, setattr, copying another object - only created,
        updated, deleted and None are accepted; anything else is a ChangeTypeError.""")
    R2 = rep.rule('list-admits', 'A change list admits only entries with a change type, singly or from an iterable; otherwise ChangeTypeError.')
    R3 = rep.rule('recorded', 'Adding changed resources with a change type records that type, keeps the other metadata and leaves the originals alone.')
    CTE = ('resync.resource.ChangeTypeError',)
    RES = 'resync.resource.Resource'

    for how in ('construct', 'assign', 'reassign', 'by_name', 'copied', 'overridden'):
        def go(how=how):
            S = Driver(prog, C23, 'C23', strings=True, budget=400000)
            n = 0
            for c in ('created', 'updated', 'deleted', None):
                want = c
                if how == 'overridden' and c is None:
                    want = 'updated'
                rets, raises = S.call(how, [c])
                n += judge(rep, S, R, RES + '.__setattr__', '%s with %r' % (how, c), how + ' (valid)', rets, raises, C(want))
            x = S.d.sym('x', min=1)
            for nm, c in (('an empty string', C('')), ('another word', C('modified')), ('created continued', X.cat([C('created'), x])),
                          ('something before created', X.cat([x, C('created')])), ('a beginning of updated', C('upd')), ('Deleted', C('Deleted')), ('Created', C('CREATED')),
                          ('created and a space', C('created ')), ('False', C(False)), ('0', C(0)), ('1', C(1)),
                          ('create', C('create')), ('a tuple', ('tup', (C('created'),))), ('delete', C('delete'))):
                rets, raises = S.call(how, [c])
                n += judge(rep, S, R, RES + '.__setattr__', '%s with %s' % (how, nm), how + ' (invalid)', rets, raises, None, error=CTE)
            rep.absorb(S.ip, how, n)
        scenario(rep, how, go)

        def go(how=how):
            # anything at all: what is accepted is one of the four
            S = Driver(prog, C23, 'C23', budget=400000, paths=True)
            v = S.sym('change')
            rets, raises = S.call(how, [v])
            n = 0
            for s, r in rets:
                n += 1
                val = s.constval(v)
                ok = s.decide(('isnone', v)) is True or val is not None and val[2] in (None, 'created', 'updated', 'deleted')
                note(rep, S, R, RES + '.__setattr__', '%s with any value' % how, how + ' (any value)', s,
                     None if ok else ('is accepted although not known to be a change type', True))
            rep.absorb(S.ip, how + ' (any value)', n)
        scenario(rep, how + ' any', go)

    CL = 'resync.change_list.ChangeList'
    for how in ('one', 'list', 'generator', 'if_changed', 'container', 'changed', 'ResourceList'):
        def go(how=how):
            S = Driver(prog, C23, 'C23', budget=2000000)
            n = 0
            for have in ((), ('updated',)):
                for new in (('created',), (None,), ('deleted', 'updated'), ('deleted', None), (None, 'created'), ('created', 'updated', None), (None, None)):
                    st = S.state()
                    us = uris(S, st, 5)
                    h = [(us[i], c) for i, c in enumerate(have)]
                    w = [(us[2 + i], c) for i, c in enumerate(new)]
                    bad = None in new
                    rets, raises = S.call('add', [h, w, how, None], st)
                    case = '%s: entries %s added to %d' % (how, ', '.join(str(c) for c in new), len(have))
                    for s, v in rets:
                        p = S.plain(s, v)
                        if bad:
                            k = new.index(None)
                            res = match(S, s, p, ('change type', Pred('entries with a change type', lambda S, s, got: any(
                                any_order(S, s, got, h + w[:j]) is None for j in (0, k)))))
                        else:
                            res = match(S, s, p, ('none', tuple(h + w)))
                        note(rep, S, R2, CL + '.add', case, how, s, res)
                    for s, e in raises:
                        note(rep, S, R2, CL + '.add', case, how, s, ('raises %s' % texts(e), True))
                    n += len(rets) + len(raises)
            rep.absorb(S.ip, 'adding, ' + how, n)
        scenario(rep, 'adding ' + how, go)

    for how in ('list', 'ResourceList', 'default'):
        def go(how=how):
            S = Driver(prog, C23, 'C23', budget=2000000)
            n = 0
            for own in ((None, 'created'), ('deleted', 'updated'), ('updated',)):
                for change in ('created', 'updated', 'deleted'):
                    if how == 'default' and (None in own or change != 'created'):
                        continue
                    st = S.state()
                    us = uris(S, st, 3)
                    items, want = [], []
                    for i, c in enumerate(own):
                        rest = tuple(S.sym('%s%d' % (x, i), t) for x, t in (('ts', 'float'), ('md5_', 'str'), ('len', 'int'), ('dt', 'float')))
                        for t in rest:
                            st.learn(('isnone', t), False)
                        items.append((us[i], c) + rest)
                        want.append((us[i], c if how == 'default' else change) + rest)
                    rets, raises = S.call('record', [items, change, how], st)
                    case = '%s: resources with %s, change %s' % (how, ', '.join(str(c) for c in own), change)
                    n += judge(rep, S, R3, CL + '.add_changed_resources', case, how, rets, raises, (tuple(want), tuple(items)))
            rep.absorb(S.ip, 'recording, ' + how, n)
        scenario(rep, 'recording ' + how, go)


# ---------------------------------------------------------------------- C44

C44 = '''
def make(kind, ln):
    if kind == 'Resource':
        return Resource(uri='u', ln=ln)
    if kind == 'ResourceList':
        return ResourceList(ln=ln)
    if kind == 'CapabilityList':
        return CapabilityList(ln=ln)
    if kind == 'ChangeList':
        return ChangeList(ln=ln)
    return ResourceContainer(ln=ln)

def set1(kind, ln, rel, href):
    o = make(kind, ln)
    o.link_set(rel, href)
    return o.ln

def set2(kind, ln, rel, href, t, extra):
    o = make(kind, ln)
    o.link_set(rel, href, type=t, pri=extra)
    return o.ln

def set_kw(kind, ln, rel, href):
    o = make(kind, ln)
    o.link_set(rel=rel, href=href)
    return o.ln

def added(kind, ln, rel, href, t):
    o = make(kind, ln)
    o.link_add(rel, href, type=t)
    return o.ln

def dup(kind, ln, rel, href, t):
    o = make(kind, ln)
    o.link_set(rel, href, allow_duplicates=True, type=t)
    return o.ln

def get(kind, ln, rel):
    o = make(kind, ln)
    l = o.link(rel)
    h = o.link_href(rel)
    return l, h, o.ln

def plain(kind):
    if kind == 'Resource':
        return Resource('u')
    if kind == 'ResourceList':
        return ResourceList()
    if kind == 'CapabilityList':
        return CapabilityList()
    if kind == 'ChangeList':
        return ChangeList()
    return ResourceContainer()

def twice(kind, rel, rel2, h1, h2, h3):
    o = plain(kind)
    p = plain(kind)
    o.link_set(rel, h1)
    o.link_set(rel2, h2)
    o.link_set(rel, h3)
    n = p.link(rel)
    p.link_set(rel2, h1)
    q = plain(kind)
    return o.ln, n, o.link_href(rel), o.link_href(rel2), p.ln, q.link(rel2), q.link(rel)

def describedby(kind, ln, href):
    o = make(kind, ln)
    o.describedby = href
    return o.describedby, o.ln

def up(kind, ln, href):
    o = make(kind, ln)
    o.up = href
    return o.up, o.ln

def index(kind, ln, href):
    o = make(kind, ln)
    o.index = href
    return o.index, o.ln

def contents(kind, ln, href):
    o = make(kind, ln)
    o.contents = href
    return o.contents, o.ln
'''


def rule_C44(prog, rep, tier):
    R = rep.rule('set', """Setting a relation in a list of up to three links with every coincidence of relations: the href of the first link with that
        relation is replaced and its attributes kept, otherwise one link is added; extra attributes are stored.""")
    R2 = rep.rule('add', 'Adding explicitly always appends a link and changes no other.')
    R3 = rep.rule('lookup', 'Looking up gives the first link with exactly that relation, or nothing, and changes nothing.')
    R4 = rep.rule('shortcuts', 'describedby, up, index and contents set and give the link with that relation.')
    P = 'p'

    def links(S, st, rels, n):
        out = []
        for i in range(n):
            h, x = S.sym('href%d' % i, 'str'), S.sym('x%d' % i, 'str')
            for t in (h, x):
                st.learn(('isnone', t), False)
            out.append({'rel': rels[i], 'href': h, 'x': x, 'type': C('text/plain')})
        return out

    for kind in ('Resource', 'ResourceContainer', 'ResourceList', 'CapabilityList', 'ChangeList'):
        q = 'resync.resource.Resource' if kind == 'Resource' else 'resync.resource_container.ResourceContainer'

        def go(kind=kind, q=q):
            S = Driver(prog, C44, 'C44', budget=4000000)
            paths = 0
            for n in (-1, 0, 1, 2, 3):
                for pat in (itertools.product('ab', repeat=n) if n > 0 else ((),)):
                    for tgt in 'abc':
                        if tgt == 'b' and 'b' not in pat:
                            continue
                        for op in ('set1', 'set2', 'set_kw', 'added', 'dup', 'get'):
                            if op in ('added', 'dup') and kind != 'Resource':
                                continue
                            st = S.state()
                            us = dict(zip('abc', uris(S, st, 3)))
                            ln = links(S, st, [us[c] for c in pat], max(n, 0))
                            href, t, e = S.sym('newhref', 'str'), S.sym('t', 'str'), S.sym('e')
                            for z in (href, t, e):
                                st.learn(('isnone', z), False)
                            arg = None if n < 0 else ln
                            case = '%s.%s(%s) on links %s' % (kind, op, tgt, ' '.join(pat) if n >= 0 else 'None')
                            group = '%s %s' % (kind, op)
                            want = [dict(x) for x in ln]
                            first = next((i for i, c in enumerate(pat) if c == tgt), None)
                            if op == 'get':
                                rets, raises = S.call(op, [kind, arg, us[tgt]], st)
                                w = want[first] if first is not None else C(None)
                                keep = tuple(want) if arg is not None or kind != 'Resource' else C(None)
                                paths += judge(rep, S, R3, q + '.link', case, group, rets, raises,
                                               (w, want[first]['href'] if first is not None else C(None), keep))
                                continue
                            args = [kind, arg, us[tgt], href]
                            if op == 'set2':
                                args += [t, e]
                            elif op in ('added', 'dup'):
                                args += [t]
                            if first is None or op in ('added', 'dup'):
                                new = {'rel': us[tgt], 'href': href}
                                want.append(new)
                            else:
                                new = want[first]
                                new['href'] = href
                            if op == 'set2':
                                new['type'] = t
                                new['pri'] = e
                            elif op in ('added', 'dup'):
                                new['type'] = t
                            rets, raises = S.call(op, args, st)
                            paths += judge(rep, S, R2 if op in ('added', 'dup') else R, q + '.link_set', case, group, rets, raises, tuple(want))
            rep.absorb(S.ip, kind, paths)
        scenario(rep, kind, go)

        def go(kind=kind, q=q):
            S = Driver(prog, C44, 'C44', budget=1000000)
            paths = 0
            for same in (False, True):
                st = S.state()
                us = uris(S, st, 2)
                hs = [S.sym('h%d' % i, 'str') for i in range(3)]
                for h in hs:
                    st.learn(('isnone', h), False)
                rel2 = us[0] if same else us[1]
                rets, raises = S.call('twice', [kind, us[0], rel2] + hs, st)
                want = ({'rel': us[0], 'href': hs[2]},) + (() if same else ({'rel': us[1], 'href': hs[1]},))
                paths += judge(rep, S, R, q + '.link_set', '%s: set twice%s' % (kind, ', same relation' if same else ''), kind + ' set twice', rets, raises,
                               (want, C(None), hs[2], hs[2] if same else hs[1], ({'rel': rel2, 'href': hs[0]},), C(None), C(None)))
            # a link without relation does not disturb
            for tgt in (True, False):
                st = S.state()
                us = uris(S, st, 2)
                ln = [{'href': C('h0')}, {'rel': us[0], 'href': C('h1')}]
                rets, raises = S.call('get', [kind, ln, us[0] if tgt else us[1]], st)
                paths += judge(rep, S, R3, q + '.link', '%s: a link without relation' % kind, kind + ' no relation', rets, raises,
                               (ln[1] if tgt else C(None), C('h1') if tgt else C(None), tuple(ln)))
            for p in ('describedby', 'up', 'index') + (('contents',) if kind == 'Resource' else ()):
                for have in ((), (p,), ('other',), ('other', p)):
                    st = S.state()
                    h = S.sym('newhref', 'str')
                    st.learn(('isnone', h), False)
                    ln = [{'rel': C(x), 'href': C('old%d' % i), 'k': C(i)} for i, x in enumerate(have)]
                    want = [dict(x) for x in ln]
                    if p in have:
                        new = want[have.index(p)]
                        new['href'] = h
                    else:
                        new = {'rel': C(p), 'href': h}
                        want.append(new)
                    if p == 'contents':
                        new['type'] = C('application/xml')
                    rets, raises = S.call(p, [kind, ln, h], st)
                    paths += judge(rep, S, R4, q + '.' + p, '%s.%s set on links %s' % (kind, p, ' '.join(have)), '%s %s' % (kind, p), rets, raises, (h, tuple(want)))
            rep.absorb(S.ip, kind + ' (more)', paths)
        scenario(rep, kind + ' more', go)
