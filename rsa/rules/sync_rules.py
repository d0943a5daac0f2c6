"""Rules about the synchronization entry points (C01-C07, C11, C12, C14-C17, C43, C45)."""
import itertools
import math

from ..state import C, NONE, TRUE, FALSE, State, mk_eq, mentions, subterms, show
from ..interp import Interp
from ..sync import (Sync, SRC, CHG, CHGT, CHGP, CHGD, DST, SAME, UPDATED, DELETED, CREATED, UPDATED_DST, CAPS,
                    FROM_SRC, SITEMAP, MAPPINGS, OPS, DOWNLOAD_OPS, CLIENT, aget, aput, adel)
from ..report import txt
from .common import scenario

EFFECTS = ('open', 'create', 'delete', 'rename', 'utime', 'mkdir', 'chmod', 'exec', 'copy', 'write')
CHANGES = ('open', 'create', 'delete', 'rename', 'utime', 'mkdir', 'chmod', 'exec')
CLFATAL = 'resync.client_utils.ClientFatalError'
CLERR = 'resync.client_utils.ClientError'


def W(src):
    return ('elem', src, ('wit',))


def attr(e, n):
    return ('attr', e, n)


def mapped(p):
    """Element whose mapped local path p is, or None."""
    if p[0] == 'call' and p[1] == 'src_to_dst' and p[2][0][0] == 'attr' and p[2][0][2] == 'uri':
        return p[2][0][1]
    return None


def beside(p):
    """Element e if p is a path beside the local copy of e (same directory, other name), else None."""
    if p[0] == 'cat':
        e = mapped(p[1][0])
        if e is not None and len(p[1]) > 1 and all(q[0] == 'c' and '/' not in str(q[2]) or q[0] != 'c' for q in p[1][1:]):
            return e
    if p[0] == 'call' and p[1] == 'os.path.join' and len(p[2]) == 2:
        d = p[2][0]
        if d[0] == 'call' and d[1] == 'os.path.dirname':
            return mapped(d[2][0])
    if p[0] == 'cat' and p[1][0][0] == 'call' and p[1][0][1] == 'os.path.dirname' and len(p[1]) > 2 and p[1][1] == C('/'):
        return mapped(p[1][0][2][0])
    if p[0] == 'meth' and p[2] in ('with_suffix', 'with_name'):
        from ..effects import strip
        return mapped(strip(p[1]))
    return None


def updir(p):
    """Element e if p is a directory leading to its local copy."""
    n = 0
    while p[0] == 'call' and p[1] in ('os.path.dirname', 'os.path.abspath', 'os.path.normpath') or p[0] == 'attr' and p[2] == 'parent':
        if p[0] == 'attr':
            from ..effects import strip
            p = strip(p[1])
        else:
            p = p[2][0]
        n += 1
    return mapped(p) if n else None


ENTRIES = (('baseline_or_audit', {}), ('incremental', {}), ('incremental', {'change_list_uri': ('p', 'change_list_uri')}),
           ('incremental', {'from_datetime': ('p', 'from_datetime')}))


def ename(m, kw, opt=None):
    x = m + '(' + ', '.join('%s=%s' % (k, txt(v)) for k, v in sorted(kw.items())) + ')'
    return x


def runs(rep, prog, on, entries, note='', **opt):
    """Run entry points; yields (name, sync, returns, raises)."""
    out = []
    for m, kw in entries:
        name = ename(m, kw) + note
        o = dict(opt)

        def go():
            s = Sync(prog, on, **o)
            if opt.get('setup'):
                opt['setup'](s.ip)
            r, e = s.call(m, **kw)
            rep.absorb(s.ip, name, len(r) + len(e))
            return (name, s, r, e)
        x = scenario(rep, name, go)
        if x is not None:
            out.append(x)
    return out


def sites(rep, prog, kinds, **opt):
    """Effect sites of an ordinary synchronization (the sites the rules have to exclude)."""
    seen = {}

    def on(ip, st, kind, info, node):
        if kind in kinds:
            seen.setdefault((kind, ip.where(st, node), st.fn.qualname), 0)
            rep.event(kind, ip.where(st, node))
    part, rep.part = rep.part, None
    runs(rep, prog, on, [(m, dict(kw, allow_deletion=TRUE)) for m, kw in ENTRIES[:2]], ' [control]', fails=QUIET, read_fails=(), **opt)
    rep.part = part
    return seen


# ---------------------------------------------------------------------- C01, C02

def rule_C01(prog, rep, tier):
    R = rep.rule('dryrun-no-effect', """With dry run set, no operation that creates, writes, deletes, re-dates or renames
        a file, creates a directory or runs a command, and no recording of state, is reachable from the synchronization
        entry points.""")
    ctl = sites(rep, prog, CHANGES + ('set_state',))
    hit = set()

    def on(ip, st, kind, info, node):
        if kind in CHANGES or kind == 'set_state':
            hit.add((kind, ip.where(st, node), st.fn.qualname))
            rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached in a dry run', ip, st, node)
    ent = [(m, dict(kw, allow_deletion=('p', 'allow_deletion'))) for m, kw in ENTRIES]
    done = runs(rep, prog, on, ent, dryrun=TRUE, hashes=('p', 'hashes') if tier == 'thorough' else None)
    done += runs(rep, prog, on, ent[:2], ' [no explicit list]', dryrun=TRUE, sitemap_name=NONE)
    reading(prog, rep, R, 'a dry run')
    if not done:
        return
    for k in ctl:
        if k not in hit:
            rep.hold(R, '%s %s %s not reached in a dry run' % k)


def rule_C02(prog, rep, tier):
    R = rep.rule('read-only', """No operation that changes the file system, no recording of state and (for an audit) no
        download of a listed resource is reachable from audit, from showing a parsed document, or from the explorer.""")
    ctl = sites(rep, prog, CHANGES + ('set_state', 'get'))
    hit = set()

    def on(ip, st, kind, info, node):
        if kind in CHANGES or kind in ('set_state', 'get'):
            hit.add((kind, ip.where(st, node), st.fn.qualname))
            rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached in an audit', ip, st, node)
    n = []
    for unsafe in (FALSE, ('p', 'unsafe')):
        n += runs(rep, prog, on, [('baseline_or_audit', {'audit_only': TRUE, 'allow_deletion': ('p', 'allow_deletion')})],
                  noauth=('p', 'noauth'), unsafe=unsafe, hashes=('p', 'hashes'))
    n += runs(rep, prog, on, [('baseline_or_audit', {'audit_only': TRUE, 'allow_deletion': TRUE})], ' [no explicit list]',
              sitemap_name=NONE)
    if n:
        for k in ctl:
            if k not in hit:
                rep.hold(R, '%s %s %s not reached in an audit' % k)

    def on2(ip, st, kind, info, node):
        if kind in CHANGES or kind == 'set_state':
            rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached while showing a document', ip, st, node)

    def parse(ip):
        def h(ip, st, fi, selfv, args, kws, node):
            for exc in ('resync.sitemap.SitemapParseError', 'builtins.OSError'):
                ip.throw(st.copy(), exc, (), node)
            return [(st, SRC)]
        ip.intercepts['resync.sitemap.Sitemap.parse_xml'] = h
        ip.types[SRC] = 'resync.resource_list.ResourceList'
    n = runs(rep, prog, on2, [('parse_document', {})], setup=parse, verbose=('p', 'verbose'), max=('p', 'max'))
    if n:
        rep.hold(R, 'parse_document reaches no change')
    if 'resync.explorer' not in prog.modules:
        rep.undecided(R, 'explorer', 'module resync.explorer not found')
        return
    alone(prog, rep, R, 'the explorer', [(q, f) for q, f in sorted(prog.functions.items()) if f.module.name == 'resync.explorer'])
    reading(prog, rep, R, 'an audit')


READERS = ('resource_list_builder', 'list_base', 'list_base_with_index', 'sitemap', 'resource', 'hashes', 'mapper', 'url_authority', 'url_or_file_open',
           'w3c_datetime', 'resource_list', 'change_list', 'resource_container', 'client_state', 'source_description', 'capability_list', 'utils')


def reading(prog, rep, R, why):
    """All functions that read, compare or scan, which the scenarios above take as doing only that."""
    fs = []
    for q, f in sorted(prog.functions.items()):
        if f.module.name.startswith('resync.') and f.module.name[7:] in READERS and not any(w in f.node.name for w in ('write', 'set_state', 'as_xml')):
            fs.append((q, f))
    alone(prog, rep, R, 'reading, comparing and scanning (part of %s)' % why, fs)


def alone(prog, rep, R, what, fs):
    """Each of the functions on unknown inputs, the others of them left out."""
    from .. import effects
    bad = []
    them = dict(fs)

    def cb(ip, st, kind, info, node):
        if kind in CHANGES:
            bad.append(1)
            rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached from %s' % what, ip, st, node)

    def other(ip, st, fi, selfv, args, kws, node):
        # analysed on its own, with unknown arguments
        ip.throw(st.copy(), 'builtins.Exception', (), node, exact=False)
        return [(st, ('fresh', fi.qualname, ip.site(st, node)))]
    for q, f in fs:
        def go(f=f):
            ip = Interp(prog)
            effects.install(ip, cb)
            for q2, g in them.items():
                if g is not f and g.node.name != '__init__':
                    ip.intercepts[q2] = other
            for m in ('*.read', '*.parse_xml'):
                ip.intercepts[m] = lambda ip, st, fi, s, a, k, n: [(st, ('p', 'LIST'))]
            a = f.node.args
            names = [x.arg for x in a.args]
            selfv = None
            if f.cls is not None and not f.is_static:
                names = names[1:]
                selfv = ('p', 'self')
                ip.types[selfv] = f.cls.qualname
            r, e = ip.run(f, selfv, [('p', x) for x in names], {}, State())
            rep.absorb(ip, f.qualname, len(r) + len(e))
            return True
        n = len(bad)
        if scenario(rep, f.qualname, go) and len(bad) == n:
            rep.hold(R, '%s reaches no change' % f.qualname)


# ---------------------------------------------------------------------- C03

def known_true(st, v):
    if v[0] == 'pred':
        d = st.decide(v[1])
        return None if d is None else d != v[2]
    return st.decide(('truth', v))


def own_temps(st):
    return aget(st, 'written', ())


def note_written(st, p):
    w = set(own_temps(st)) | {p}
    if len(w) > 4:
        w = {p}
    aput(st, 'written', tuple(sorted(w, key=repr)))


def rule_C03(prog, rep, tier):
    R = rep.rule('guarded-deletion', """At every operation that removes a file (unlink, rmdir, rmtree, or moving a local copy
        away) reachable from a synchronization: deletion is enabled and it is not a dry run on every path, and the
        path is the mapped path of an entry classified as only in the destination (baseline) or whose change type is
        known to be 'deleted' (incremental). Clean-up of a temporary file beside a local copy is exempt.""")
    AD, DR = ('p', 'allow_deletion'), ('p', 'dryrun')

    def check(ip, st, kind, p, node, method):
        e = mapped(p)
        name = '%s %s' % (kind, txt(p))
        if e is None and p in own_temps(st) and beside(p) is not None:
            rep.at(True, R, name + ' own temporary file', '', ip, st, node)
            return
        if e is None and beside(p) is not None:
            # a stale temporary file beside the local copy
            rep.at(True, R, name + ' temporary file', '', ip, st, node)
            return
        rep.at(known_true(st, AD) is True, R, name + ': deletion enabled', 'a file is removed without deletion being enabled', ip, st, node)
        rep.at(known_true(st, DR) is False, R, name + ': not a dry run', 'a file is removed in a dry run', ip, st, node)
        ok = e is not None
        rep.at(ok, R, name + ': mapped path', 'what is removed is not the mapped path of an entry', ip, st, node)
        if ok:
            src = e[1] if e[0] == 'elem' else None
            if method == 'baseline_or_audit':
                rep.at(src == DELETED, R, name + ': only in destination',
                       'the entry is from %s, not from the resources absent from the source' % txt(e), ip, st, node)
            else:
                f = st.decide(mk_eq(attr(e, 'change'), C('deleted')))
                rep.at(src in (CHG, CHGT, CHGP, CHGD) and f is True, R, name + ': change is deleted',
                       'the change type of the entry is not known to be deleted', ip, st, node)
    for m, kw in ENTRIES:
        def on(ip, st, kind, info, node, m=m):
            if kind in ('open', 'create'):
                note_written(st, info[0])
            if kind == 'delete':
                rep.event(kind, ip.where(st, node))
                check(ip, st, kind, info[0], node, m)
            elif kind == 'rename':
                rep.event(kind, ip.where(st, node))
                if beside(info[0]) is None and info[0] not in own_temps(st):
                    check(ip, st, kind, info[0], node, m)
                else:
                    rep.at(True, R, 'rename of a temporary file', '', ip, st, node)
            elif kind == 'exec':
                rep.at(False, R, 'exec', 'runs a command', ip, st, node)
        runs(rep, prog, on, [(m, dict(kw, allow_deletion=AD))], dryrun=DR)
        runs(rep, prog, on, [(m, dict(kw, allow_deletion=FALSE))], dryrun=DR)
        runs(rep, prog, on, [(m, dict(kw))], ' [default]', dryrun=DR)


# ---------------------------------------------------------------------- C04, C05

QUIET = frozenset()


def aborts(prog, rep, R, name, entries, classes, on_extra=None, may_return=False, setup=None, note='', **opt):
    """In the scenario no download, change or state record happens and the run ends with one of classes."""
    bad = []

    def on(ip, st, kind, info, node):
        if kind in CHANGES or kind in ('set_state', 'get'):
            bad.append(1)
            rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached although ' + name, ip, st, node, ' [%s]' % name)
        elif on_extra:
            on_extra(ip, st, kind, info, node)
    opt.setdefault('fails', QUIET)
    for nm, s, rets, raises in runs(rep, prog, on, entries, ' [%s]' % name, setup=setup, **opt):
        fn = CLIENT + '.' + nm.split('(')[0]
        if rets and not may_return:
            rep.fail(R, fn, 'no abort [%s]' % name, 'returns normally although ' + name, '', rets[0][0].path(), [fn])
        for st, e in raises:
            if e[1] not in classes:
                rep.fail(R, fn, 'abort with %s [%s]' % (e[1], name), 'ends with %s instead of a client error although %s'
                         % (e[1], name), '', st.path(), [fn])
        if not rets and not raises:
            rep.undecided(R, nm, 'no outcome')
        elif not bad and not (rets and not may_return) and all(e[1] in classes for _, e in raises):
            rep.hold(R, '%s aborts with a client error' % nm)


def rule_C04(prog, rep, tier):
    R = rep.rule('mapping-required', """With no mapping, or with an unsafe one, every path through baseline and incremental
        ends by raising ClientFatalError; no download, change to the file system or recording of state is reachable.""")
    for ad in (TRUE,) if tier == 'quick' else (TRUE, FALSE):
        ent = [(m, dict(kw, allow_deletion=ad)) for m, kw in ENTRIES]
        facts = [(('isnone', ('p', 'from_datetime')), False)]
        for sn in (SITEMAP, NONE):
            common = dict(sitemap_name=sn, facts=facts, bad_datetime=False, read_fails=(), nonempty=(SRC,),
                          state=('p', 'state'))
            for dr in (FALSE, TRUE):
                if sn == SITEMAP:
                    aborts(prog, rep, R, 'no mapping is configured%s' % ('' if dr == FALSE else ', dry run'), ent, (CLFATAL,),
                           mapper='none', dryrun=dr, **common)
                aborts(prog, rep, R, 'a mapping is unsafe%s%s' % ('' if sn == SITEMAP else ', no explicit list', '' if dr == FALSE else ', dry run'),
                       ent, (CLFATAL,), unsafe=TRUE, dryrun=dr, **common)
    unsafe_used(prog, rep, R)


def unsafe_used(prog, rep, R):
    """Acceptance: with a safe mapping the run does reach its changes."""
    n = [0]

    def on(ip, st, kind, info, node):
        if kind == 'get':
            n[0] += 1
    for m in ('baseline_or_audit', 'incremental'):
        n[0] = 0
        r = runs(rep, prog, on, [(m, {})], ' [safe mapping]', unsafe=FALSE)
        if r and n[0]:
            rep.hold(R, '%s proceeds under a safe mapping' % m)
        elif r:
            rep.fail(R, CLIENT + '.' + m, 'no download under a safe mapping', 'a sync under a safe mapping downloads nothing')


def rule_C05(prog, rep, tier):
    R = rep.rule('bad-source-list', """If the source list cannot be found, read or parsed or is empty (baseline), or the change
        list cannot be read, the start datetime is bad, no start time is recorded, or an entry has no time
        (incremental), every path ends with a client error, and no download, change or recording of state is reachable.""")
    CE = (CLERR, CLFATAL)
    base = [('baseline_or_audit', {'allow_deletion': TRUE}), ('baseline_or_audit', {})]
    aborts(prog, rep, R, 'the source list cannot be read', base, CE, read_fails=(SRC,), read_never=(SRC,))
    aborts(prog, rep, R, 'no source list can be found', base[:1], CE, sitemap_name=NONE, read_fails=(SRC, CAPS), read_never=(SRC,))
    aborts(prog, rep, R, 'the listed source list cannot be read', base[:1], CE, sitemap_name=NONE, capability_list_uri=('p', 'caps_uri'),
           facts=[(('isnone', ('p', 'caps_uri')), False)], read_fails=(SRC, CAPS), read_never=(SRC,))
    aborts(prog, rep, R, 'the source list is empty', base, CE, empty=(SRC,))
    aborts(prog, rep, R, 'the source list found is empty', base[:1], CE, sitemap_name=NONE, empty=(SRC,))
    inc = [('incremental', {'allow_deletion': TRUE}), ('incremental', {'change_list_uri': ('p', 'change_list_uri'), 'allow_deletion': TRUE})]
    frm = [('incremental', dict(kw, from_datetime=('p', 'from_datetime'))) for m, kw in inc]
    facts = [(('isnone', ('p', 'from_datetime')), False)]
    aborts(prog, rep, R, 'the change list cannot be read', inc + frm, CE, read_fails=(CHG,), read_never=(CHG,), facts=facts)
    aborts(prog, rep, R, 'the start datetime is bad', frm, CE, bad_datetime='always', facts=facts)
    aborts(prog, rep, R, 'no start time is recorded', inc, CE, state=NONE)

    def setup(ip):
        ip.witness[CHG] = (W(CHG),)
    w = W(CHG)
    aborts(prog, rep, R, 'an entry has no time', inc + frm, CE, setup=setup,
           facts=facts + [(('isnone', attr(w, 'timestamp')), True), (('isnone', attr(w, 'ts_datetime')), True)],
           nonempty=(CHG,), bad_datetime=False, state=('p', 'state'))
    R2 = rep.rule('partial', """A source list in parts of which one cannot be opened, is not XML or is an index, at every position, is an error, not a shorter
        list.""")
    from .split_rules import partial
    partial(prog, rep, R2)
    aborts(prog, rep, R, 'the unreadable list, recorded state unknown', [('incremental', {'allow_deletion': TRUE})], CE,
           read_fails=(CHG,), read_never=(CHG,), hashes=('p', 'hashes'))


# ---------------------------------------------------------------------- C06

def rule_C06(prog, rep, tier):
    R = rep.rule('authority-before-change', """If one listed resource (witness) is outside the authority of the document that
        lists it, checked with the client's strictness, no download, change to the file system or recording of state is
        reachable; if all are inside, or checking is disabled, the sync does proceed.""")
    ST = ('p', 'strictauth')

    def right(st, master, strict, allowed):
        return master in allowed and strict == ST

    def case(m, kw, src, oracle, name, must_abort, noauth=FALSE):
        n = [0, 0]

        def on(ip, st, kind, info, node):
            if kind == 'read' and info[0] == src:
                aput(st, 'listed', info[1])
            if kind == 'auth':
                rep.event('authority check', ip.where(st, node))
            if kind in CHANGES or kind in ('set_state', 'get'):
                n[0] += 1
                if must_abort:
                    rep.at(False, R, '%s %s' % (kind, txt(info[0])), 'reached although a listed resource is outside the authority (%s)'
                           % name, ip, st, node, ' [%s]' % name)

        def setup(ip):
            ip.witness[src] = (W(src),)

        def auth(ip, st, master, strict, url):
            own = aget(st, 'listed')
            if url == attr(W(src), 'uri'):
                return oracle(master, strict, own)
            if must_abort:
                return TRUE
            return oracle(master, strict, own) if url[0] == 'attr' and url[2] == 'uri' else FALSE
        sm = NONE if 'no explicit list' in name else SITEMAP
        for nm, s, rets, raises in runs(rep, prog, on, [(m, kw)], ' [%s]' % name, auth=auth, setup=setup, noauth=noauth,
                                        fails=QUIET, read_fails=(), nonempty=(src,), bad_datetime=False, sitemap_name=sm):
            if must_abort and not n[0]:
                rep.hold(R, '%s: nothing is changed' % nm)
            if not must_abort:
                if any(e[1] == CLFATAL and 'authority' in repr(e[2]) for _, e in raises) or not n[0]:
                    x = [st for st, e in raises]
                    rep.fail(R, CLIENT + '.' + m, 'refused [%s]' % name, 'a sync of resources inside the authority is refused', '',
                             x[0].path() if x else ())
                else:
                    rep.hold(R, '%s: proceeds' % nm)
    own_sm = lambda master, own: master in (own, SITEMAP) or (master[0] in ('cat', 'c') and 'resourcelist.xml' in repr(master))
    B = ('baseline_or_audit', {'allow_deletion': TRUE})
    I = ('incremental', {'allow_deletion': TRUE})
    IX = ('incremental', {'allow_deletion': TRUE, 'change_list_uri': ('p', 'change_list_uri')})

    def no(ok):
        # outside for a correctly asked question; a wrongly asked one would let it pass
        return lambda master, strict, own: FALSE if ok(master, own) and strict == ST else TRUE

    def yes(ok):
        return lambda master, strict, own: TRUE if ok(master, own) and strict == ST else FALSE
    case(*B, SRC, no(own_sm), 'outside the source list authority', True)
    case(*B, SRC, yes(own_sm), 'inside the source list authority', False)
    case(*B, SRC, no(own_sm), 'outside, no explicit list', True)
    case(*B, SRC, lambda *a: FALSE, 'checking disabled', False, noauth=TRUE)
    either = lambda master, own: master == own or own_sm(master, own)
    case(*I, CHG, no(either), 'outside both authorities', True)
    case(*I, CHG, no(either), 'outside both authorities, no explicit list', True)
    case(*I, CHG, yes(either), 'inside both authorities', False)
    case(*I, CHG, lambda *a: FALSE, 'checking disabled', False, noauth=TRUE)
    is_own = lambda master, own: master == own
    case(*IX, CHG, no(is_own), 'outside the explicit change list authority', True)
    case(*IX, CHG, yes(is_own), 'inside the explicit change list authority', False)


# ---------------------------------------------------------------------- C07

def rule_C07(prog, rep, tier):
    R = rep.rule('mapped-paths-only', """Every path that is created, written, renamed, re-dated or removed is the term
        src_to_dst(uri of the entry being processed), a directory on the way to it, or a temporary file beside it.""")
    R2 = rep.rule('content-of-same-resource', """Data written to the local copy of an entry derives from the response to a
        request for the uri of the same entry.""")

    def owner(ip, st, f):
        o = ip.obj(st, f)
        if o is None:
            return None
        p = o.attrs.get('path')
        return (mapped(p) or beside(p)) if p is not None else None

    def unknown(p):
        return any(x[0] == 'fresh' for x in subterms(p))

    def on(ip, st, kind, info, node):
        if kind in ('open', 'create', 'utime', 'chmod', 'delete'):
            rep.event(kind, ip.where(st, node))
            p = info[0]
            e = mapped(p) or beside(p)
            if e is None and p[0] == 'fresh':
                rep.undecided(R, '%s of %s' % (kind, txt(p)), 'temporary file of unknown location')
                return
            ok = e is not None and e[0] == 'elem' and e[1] in FROM_SRC + (CHG, CHGT, CHGP, CHGD, DELETED, UPDATED_DST)
            if kind == 'utime' and ok:
                ok = mapped(p) is not None or p in own_temps(st)
            rep.at(ok, R, '%s %s' % (kind, txt(p)), 'not the mapped path of the entry being processed', ip, st, node)
            if kind == 'open':
                note_written(st, p)
            if kind == 'create' and len(info) > 1 and e is not None:
                s = info[1]
                if mapped(s) is not None or beside(s) is not None:
                    rep.at((mapped(s) or beside(s)) == e, R2, 'copy of %s to %s' % (txt(s), txt(p)), 'content of another resource', ip, st, node)
                elif s[0] == 'attr' and s[2] == 'uri':
                    rep.at(s[1] == e, R2, 'retrieve %s' % txt(s), 'content of another resource', ip, st, node)
        elif kind == 'mkdir':
            rep.event(kind, ip.where(st, node))
            rep.at(updir(info[0]) is not None, R, 'mkdir %s' % txt(info[0]), 'not a directory leading to a mapped path', ip, st, node)
        elif kind == 'rename':
            rep.event(kind, ip.where(st, node))
            a, b = mapped(info[0]) or beside(info[0]), mapped(info[1]) or beside(info[1])
            if info[0][0] == 'fresh' and b is not None:
                rep.undecided(R, 'rename of %s' % txt(info[0]), 'temporary file of unknown location')
                return
            rep.at(b is not None and a == b, R, 'rename %s to %s' % (txt(info[0]), txt(info[1])),
                   'not a move onto the mapped path of the entry whose content it is', ip, st, node)
        elif kind == 'exec':
            rep.at(False, R, 'exec', 'runs a command', ip, st, node)
        elif kind in ('copy', 'write'):
            src, dst = info if kind == 'copy' else (info[1], info[0])
            rep.event(kind, ip.where(st, node))
            e = owner(ip, st, dst)
            if e is None:
                return
            g = ('call', 'GET', (attr(e, 'uri'),), ())
            if mentions(src, g):
                rep.at(True, R2, '%s to the copy of %s' % (kind, txt(e)), '', ip, st, node)
            elif any(x[0] == 'call' and x[1] == 'GET' for x in subterms(src)) or not unknown(src):
                rep.at(False, R2, '%s of %s to the copy of %s' % (kind, txt(src), txt(e)), 'content does not come from the resource itself', ip, st, node)
            else:
                rep.undecided(R2, '%s of %s' % (kind, txt(src)), 'origin of the data is unknown')
    ent = [(m, dict(kw, allow_deletion=TRUE)) for m, kw in ENTRIES]
    runs(rep, prog, on, ent)
    if tier == 'thorough':
        runs(rep, prog, on, ent[:2], ' [no explicit list]', sitemap_name=NONE, hashes=('p', 'hashes'))


# ---------------------------------------------------------------------- C11

def count(st, k, sat=3):
    return aget(st, k, 0)


def bump(st, k):
    aput(st, k, min(aget(st, k, 0) + 1, 3))


def stored_events(st, kind, info, w):
    """Does the event put the content of entry w in place?"""
    p = ('call', 'src_to_dst', (attr(w, 'uri'),), ())
    if kind == 'rename':
        return info[1] == p
    if kind in ('open', 'create'):
        return info[0] == p
    return False


def rule_C11(prog, rep, tier):
    R = rep.rule('each-change-once', """For a witness entry in each class, on every path on which the sync ends normally: created
        and updated ones are downloaded exactly once and stored at their mapped path, deleted ones are removed exactly
        once if deletion is enabled and never downloaded, ones in sync are not touched.""")

    def case(m, kw, src, name, want_get, want_del, facts=()):
        w = W(src)

        def on(ip, st, kind, info, node):
            if kind == 'get' and info[0] == attr(w, 'uri'):
                bump(st, 'get')
            if stored_events(st, kind, info, w):
                bump(st, 'stored')
            if kind == 'delete' and info[0] == ('call', 'src_to_dst', (attr(w, 'uri'),), ()):
                bump(st, 'deleted')

        def setup(ip):
            ip.witness[src] = (w,)
        n = 0
        for nm, s, rets, raises in runs(rep, prog, on, [(m, kw)], ' [%s]' % name, setup=setup, fails=frozenset(('map',)), read_fails=(),
                                        facts=list(facts), nonempty=(SRC, CHG, CHGT, CHGP, src) if src != SAME else (SRC, src),
                                        bad_datetime=False, state=('p', 'state')):
            for st, v in rets:
                n += 1
                g, d, so = count(st, 'get'), count(st, 'deleted'), count(st, 'stored')
                fn = CLIENT + '.' + m
                ok = True
                if g != want_get:
                    ok = False
                    rep.fail(R, fn, 'downloads of %s' % name, 'ends normally after %d downloads of an entry that is %s (expected %d)'
                             % (g, name, want_get), '', st.path())
                if d != want_del:
                    ok = False
                    rep.fail(R, fn, 'removals of %s' % name, 'ends normally after %d removals of an entry that is %s (expected %d)'
                             % (d, name, want_del), '', st.path())
                if so != want_get and g == want_get:
                    ok = False
                    rep.fail(R, fn, 'stores of %s' % name, 'ends normally with an entry that is %s stored %d times (expected %d)'
                             % (name, so, want_get), '', st.path())
                if ok:
                    rep.hold(R, nm + ': %d downloads, %d removals' % (want_get, want_del))
            if not rets:
                rep.fail(R, CLIENT + '.' + m, 'no normal end [%s]' % name, 'no path ends normally', '', raises[0][0].path() if raises else ())
    B = 'baseline_or_audit'
    for ad in (TRUE, FALSE):
        k = {'allow_deletion': ad}
        d = 1 if ad == TRUE else 0
        x = ', deletion %s' % ('enabled' if d else 'disabled')
        case(B, k, CREATED, 'created' + x, 1, 0)
        case(B, k, UPDATED, 'updated' + x, 1, 0)
        case(B, k, DELETED, 'deleted' + x, 0, d)
        case(B, k, SAME, 'same' + x, 0, 0)
        for ch, g, dd in (('created', 1, 0), ('updated', 1, 0), ('deleted', 0, d)):
            case('incremental', k, CHGP, 'a %s change%s' % (ch, x), g, dd, facts=[(mk_eq(attr(W(CHGP), 'change'), C(ch)), True)])
    # what is in sync is never fetched
    R2 = rep.rule('only-planned', 'No entry outside the created and updated classes is downloaded by a baseline sync.')

    def on(ip, st, kind, info, node):
        if kind == 'get':
            u = info[0]
            e = u[1] if u[0] == 'attr' and u[2] == 'uri' else None
            ok = e is not None and e[0] == 'elem' and e[1] in (CREATED, UPDATED)
            rep.at(ok, R2, 'get %s' % txt(u), 'download of an entry that is neither created nor updated', ip, st, node)
    runs(rep, prog, on, [(B, {'allow_deletion': TRUE})], ' [planned]')


# ---------------------------------------------------------------------- C43

def rule_C43(prog, rep, tier):
    R = rep.rule('prune-then-apply', """Every entry an incremental sync downloads, stores or removes comes from the list after
        prune_updates_before(start, version) and then prune_dupes; start is the explicit datetime if given, else the
        time recorded for the source list; the version is the client's.""")
    SV = ('p', 'spec_version')
    EXPL = ('call', 'str_to_datetime', (('p', 'from_datetime'),), ())
    for m, kw in ENTRIES[1:] + (('incremental', {'change_list_uri': ('p', 'change_list_uri'), 'from_datetime': ('p', 'from_datetime')}),):
        start = EXPL if 'from_datetime' in kw else ('p', 'state')

        def on(ip, st, kind, info, node, start=start):
            if kind == 'prune_before':
                rep.event(kind, ip.where(st, node))
                rep.at(info[1] == start, R, 'start of pruning %s' % txt(info[1]), 'expected %s' % txt(start), ip, st, node)
                rep.at(info[2] == SV, R, 'version used for pruning %s' % txt(info[2]), 'not the specification version of the client', ip, st, node)
                rep.at(info[0] == CHG, R, 'order of pruning', 'pruning by time must come first', ip, st, node)
            elif kind == 'get_state':
                rep.at(info[0] == SITEMAP, R, 'recorded time of %s' % txt(info[0]), 'not the source list uri', ip, st, node)
            u = None
            if kind == 'get':
                u = info[0]
                e = u[1] if u[0] == 'attr' and u[2] == 'uri' else None
            elif kind in ('delete', 'open', 'create', 'utime'):
                e = mapped(info[0]) or beside(info[0])
            elif kind == 'rename':
                e = mapped(info[1])
            else:
                return
            if e is not None:
                rep.event(kind, ip.where(st, node))
                rep.at(e[0] == 'elem' and e[1] == CHGP, R, '%s of %s' % (kind, txt(e)), 'applied without having been pruned by time and duplicates', ip, st, node)
        facts = [(('isnone', ('p', 'from_datetime')), False)]
        runs(rep, prog, on, [(m, dict(kw, allow_deletion=TRUE))], spec_version=SV, state=('p', 'state'), bad_datetime=False, facts=facts)
    # an unpruned list must never be applied even if nothing was pruned: also with default allow_deletion


# ---------------------------------------------------------------------- C12

def rule_C12(prog, rep, tier):
    R = rep.rule('state-value', """The recorded value is a time given by an entry of the source list or change list, not less
        than the time of any processed entry (witness), recorded under the URI of the source list.""")
    R2 = rep.rule('state-last', """State is recorded only after every planned change was attempted, nothing is changed after it,
        and a sync that processed an entry with a (positive) time and ends normally has recorded it.""")

    def case(m, kw, src, name, facts, time, extra=()):
        w = W(src)
        fn = CLIENT + '.' + m

        def on(ip, st, kind, info, node):
            if kind == 'get' and info[0] == attr(w, 'uri') or kind == 'delete' and info[0] == ('call', 'src_to_dst', (attr(w, 'uri'),), ()):
                aput(st, 'done', 1)
            if aget(st, 'recorded') and (kind in CHANGES or kind == 'get'):
                rep.at(False, R2, '%s after recording' % kind, 'a change is made after state was recorded', ip, st, node)
            if kind == 'set_state':
                rep.event(kind, ip.where(st, node))
                site, ts = info
                rep.at(site == SITEMAP, R, 'recorded under %s' % txt(site), 'not the uri of the source list', ip, st, node)
                rep.at(aget(st, 'done') == 1 or time is None and src == DELETED and kw.get('allow_deletion') == FALSE, R2,
                       'recorded after %s' % name, 'recorded before the entry was processed', ip, st, node)
                bad = [x for x in subterms(ts) if x[:1] == ('elem',) and len(x) > 1 and x[1] in (DELETED, DST, UPDATED_DST, SAME)
                       or x[0] in ('call', 'fresh') and x[1] in ('time.time', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'os.stat', 'os.path.getmtime')
                       or x[0] == 'p' and str(x[1]).startswith('stale:')]
                rep.at(not bad, R, 'value %s' % txt(ts), 'the recorded time contains a local time or one of an earlier synchronization', ip, st, node)
                if lost(ts):
                    rep.undecided(R, ip.where(st, node), 'value %s' % txt(ts))
                    aput(st, 'recorded', 1)
                    return
                if time is not None:
                    ok = st.le(time, ts)
                    rep.at(ok, R, 'value covers %s' % name, 'the recorded time may be earlier than that of a processed entry (%s recorded)'
                           % txt(ts), ip, st, node)
                    if not ok and not bad:
                        pass
                tt = [x for x in subterms(ts) if x[0] == 'attr' and x[2] in ('timestamp', 'ts_datetime', 'lastmod')]
                if not bad and time is not None:
                    rep.at(bool(tt) or ts == time, R, 'origin of %s' % txt(ts), 'the recorded time is not a time the source gave', ip, st, node)
                aput(st, 'recorded', 1)

        def setup(ip):
            ip.witness[src] = (w,)
        for nm, s, rets, raises in runs(rep, prog, on, [(m, kw)], ' [%s]' % name, setup=setup, fails=QUIET, read_fails=(), facts=list(facts),
                                        nonempty=(SRC, CHG, CHGT, CHGP, src), bad_datetime=False, state=('p', 'state')):
            for st, v in rets:
                if time is None:
                    continue
                if aget(st, 'recorded'):
                    rep.hold(R2, nm + ': recorded')
                else:
                    rep.fail(R2, fn, 'recorded at all [%s]' % name, 'ends normally without recording state', '', st.path())
            if not rets:
                rep.undecided(R2, nm, 'no normal end')
    B, I = 'baseline_or_audit', 'incremental'
    for ad in (TRUE, FALSE):
        k = {'allow_deletion': ad}
        for src, n in ((CREATED, 'created'), (UPDATED, 'updated')):
            t = attr(W(src), 'timestamp')
            case(B, k, src, '%s, deletion %s' % (n, txt(ad)), [(('isnone', t), False), (('lt', C(0), t), True)], t)
        case(B, k, DELETED, 'deleted, deletion %s' % txt(ad), [], None)
        for ch in ('created', 'updated', 'deleted'):
            w = W(CHGP)
            ts, dt = attr(w, 'timestamp'), attr(w, 'ts_datetime')
            cf = [(mk_eq(attr(w, 'change'), C(ch)), True)]
            if ch == 'deleted' and ad == FALSE:
                continue
            # the entry kept after pruning is also an entry of the list as read
            for which in ('datetime', 'lastmod'):
                pass
            inc_case(prog, rep, R, R2, k, ch, case)
    R3 = rep.rule('state-read', 'An incremental sync without explicit start reads the time recorded under the source list uri.')

    def on(ip, st, kind, info, node):
        if kind == 'get_state':
            rep.at(info[0] == SITEMAP, R3, 'state of %s' % txt(info[0]), 'not the uri of the source list', ip, st, node)
        if kind == 'prune_before':
            rep.at(info[1] == ('call', 'get_state', (SITEMAP,), ()), R3, 'start %s' % txt(info[1]), 'not exactly the recorded time', ip, st, node)
    runs(rep, prog, on, [(I, {}), (I, {'change_list_uri': ('p', 'change_list_uri')})], ' [state read]')


def inc_case(prog, rep, R, R2, k, ch, case):
    """The kept entry has its counterpart in the list as read: use one witness term for both."""
    w = W(CHGP)
    for which in ('ts_datetime', 'timestamp'):
        t = attr(w, which)
        facts = [(mk_eq(attr(w, 'change'), C(ch)), True), (('isnone', t), False), (('lt', C(0), t), True)]
        if which == 'timestamp':
            facts.append((('isnone', attr(w, 'ts_datetime')), True))
        else:
            facts.append((('isnone', attr(w, 'timestamp')), True))
        case_shared(prog, rep, R, R2, k, ch, which, facts, t)


def case_shared(prog, rep, R, R2, k, ch, which, facts, t):
    w = W(CHGP)
    fn = CLIENT + '.incremental'

    def on(ip, st, kind, info, node):
        if kind == 'get' and info[0] == attr(w, 'uri') or kind == 'delete' and info[0] == ('call', 'src_to_dst', (attr(w, 'uri'),), ()):
            aput(st, 'done', 1)
        if aget(st, 'recorded') and (kind in CHANGES or kind == 'get'):
            rep.at(False, R2, '%s after recording' % kind, 'a change is made after state was recorded', ip, st, node)
        if kind == 'set_state':
            rep.event(kind, ip.where(st, node))
            site, ts = info
            rep.at(site == SITEMAP, R, 'recorded under %s' % txt(site), 'not the uri of the source list', ip, st, node)
            rep.at(aget(st, 'done') == 1, R2, 'recorded after a %s change' % ch, 'recorded before the change was attempted', ip, st, node)
            if lost(ts):
                rep.undecided(R, ip.where(st, node), 'value %s' % txt(ts))
                aput(st, 'recorded', 1)
                return
            ok = st.le(t, ts)
            rep.at(ok, R, 'value covers a %s change with %s' % (ch, which), 'the recorded time may be earlier than that of a processed change (%s recorded)'
                   % txt(ts), ip, st, node)
            bad = [x for x in subterms(ts) if x[:1] == ('elem',) and len(x) > 1 and x[1] in (DST, UPDATED_DST)
                   or x[0] in ('call', 'fresh') and x[1] in ('time.time', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'os.stat', 'os.path.getmtime')
                   or x[0] == 'p' and str(x[1]).startswith('stale:')]
            rep.at(not bad, R, 'value %s' % txt(ts), 'the recorded time contains a local time or one of an earlier synchronization', ip, st, node)
            aput(st, 'recorded', 1)

    def setup(ip):
        for s in (CHG, CHGT, CHGD, CHGP):
            ip.witness[s] = (w,)
    nm0 = ' [%s change with %s]' % (ch, which)
    for nm, s, rets, raises in runs(rep, prog, on, [('incremental', k)], nm0, setup=setup, fails=QUIET, read_fails=(), facts=facts,
                                    nonempty=(CHG, CHGT, CHGP), bad_datetime=False, state=('p', 'state')):
        for st, v in rets:
            if aget(st, 'recorded'):
                rep.hold(R2, nm + ': recorded')
            else:
                rep.fail(R2, fn, 'recorded at all%s' % nm0, 'ends normally without recording state', '', st.path())
        if not rets:
            rep.undecided(R2, nm, 'no normal end')


def lost(t):
    """The value was lost where too many states were joined."""
    return any(x[:2] == ('fresh', 'joined') for x in subterms(t))


# ---------------------------------------------------------------------- C14, C15

def is_logger(t):
    return any(x[0] == 'call' and x[1] == 'logging.getLogger' for x in subterms(t)) or t[0] == 'attr' and 'log' in t[2]


LEVELS = ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log')


def log_hooks(ip, fn):
    """fn(ip, st, level, args, node) for every logger call."""
    def mk(level):
        def h(ip, st, name, recv, args, kws, node):
            if recv is not None and is_logger(recv):
                fn(ip, st, level, args, node)
            return None
        return h
    for lv in LEVELS:
        ip.hooks['.' + lv] = mk(lv)
        ip.hooks['logging.' + lv] = (lambda lv: lambda ip, st, name, recv, args, kws, node: fn(ip, st, lv, args, node))(lv)


def rule_C14(prog, rep, tier):
    R = rep.rule('count-iff-stored', """At the final report of a sync the created/updated/deleted totals equal the number of entries
        of that class whose content was completely stored (or removed) on the path; a failed or dry-run download
        contributes nothing.""")
    R2 = rep.rule('failure-is-reported', """A path on which a download fails ends with ClientFatalError unless failures are ignored;
        if they are ignored it goes on after a warning, and the failure never escapes as another exception.""")
    IG = ('p', 'ignore_failures')
    B = 'baseline_or_audit'
    fi = prog.cls(CLIENT).find('log_status')
    if fi is None or fi[0] != 'method':
        rep.undecided(R, 'totals', 'Client.log_status not found')
        return
    pos = [a.arg for a in fi[1].node.args.args][1:]

    def final(args, kws):
        d = dict(zip(pos, args))
        d.update(kws)
        return d

    def case(m, kw, exact, name, facts, dryrun=FALSE, tries=1, fails=DOWNLOAD_OPS):
        ws = {w: (src, i) for src, t in exact.items() for i, w in enumerate(t)}

        def on(ip, st, kind, info, node):
            if kind == 'get':
                u = info[0]
                if u[0] == 'attr' and u[1] in ws:
                    if aget(st, 'failed') and aget(st, 'cur') != u[1]:
                        aput(st, 'anyfail', 1)
                        adel(st, 'failed')
                    aput(st, 'cur', u[1])
            for w in ws:
                if stored_events(st, kind, info, w):
                    aput(st, 'st:' + repr(w), 1)
                    adel(st, 'failed')
                if kind == 'delete' and info[0] == ('call', 'src_to_dst', (attr(w, 'uri'),), ()):
                    aput(st, 'rm:' + repr(w), 1)

        def on_fail(st, op, how):
            if op not in DOWNLOAD_OPS:
                return
            aput(st, 'failed', 1)
            adel(st, 'warned')
            # a file opened at its final place is not stored if writing it fails
            c = aget(st, 'cur')
            if c is not None:
                adel(st, 'st:' + repr(c))

        def h_status(ip, st, fi, selfv, args, kws, node):
            d = final(args, kws)
            if d.get('audit', FALSE) == TRUE:
                return [(st, NONE)]
            n = {}
            for w, (src, i) in ws.items():
                cls = {CREATED: 'created', UPDATED: 'updated', DELETED: 'deleted'}.get(src)
                if cls is None:
                    f = st.decide(mk_eq(attr(w, 'change'), C('created')))
                    for c in ('created', 'updated', 'deleted'):
                        if st.decide(mk_eq(attr(w, 'change'), C(c))) is True:
                            cls = c
                k = aget(st, ('rm:' if cls == 'deleted' else 'st:') + repr(w), 0)
                n[cls] = n.get(cls, 0) + k
            aput(st, 'final', tuple((c, d.get(c, C(0)), n.get(c, 0)) for c in ('created', 'updated', 'deleted')))
            return [(st, NONE)]

        def setup(ip):
            for src, t in exact.items():
                ip.exact_src[src] = t
            ip.intercepts[fi[1].qualname] = h_status

            def lg(ip, st, level, args, node):
                if level in ('warning', 'warn', 'error', 'critical', 'exception'):
                    aput(st, 'warned', 1)
            log_hooks(ip, lg)
        fn = CLIENT + '.' + m
        for nm, s, rets, raises in runs(rep, prog, on, [(m, kw)], ' [%s]' % name, setup=setup, facts=list(facts), on_fail=on_fail,
                                        fails=fails, read_fails=(), dryrun=dryrun, tries=C(tries), bad_datetime=False,
                                        state=('p', 'state'), nonempty=tuple(exact) + (SRC, CHG),
                                        empty=tuple(x for x in (SAME, CREATED, UPDATED, DELETED) if x not in exact) if m == B else ()):
            for st, v in rets:
                f = aget(st, 'final')
                if f is None:
                    rep.fail(R, fn, 'no final report [%s]' % name, 'ends without reporting totals', '', st.path())
                    continue
                for cls, got, want in f:
                    if got == C(want):
                        rep.hold(R, nm + ': %s total' % cls)
                    elif got[0] not in ('c', 'fresh') or got[0] == 'fresh' and got[1] in ('aliased', 'joined'):
                        rep.undecided(R, fn, 'total of %s [%s]' % (cls, name), 'reported as %s' % txt(got))
                    else:
                        rep.fail(R, fn, 'total of %s [%s]' % (cls, name), 'reports %s as %s where %d were completed'
                                 % (cls, txt(got), want), '', st.path())
                if aget(st, 'anyfail') or aget(st, 'failed'):
                    if st.decide(('truth', IG)) is False:
                        rep.fail(R2, fn, 'failure swallowed [%s]' % name, 'a failed download does not abort the sync although failures are not ignored', '', st.path())
                    elif aget(st, 'failed') and not aget(st, 'warned'):
                        rep.fail(R2, fn, 'failure without warning [%s]' % name, 'an ignored failure is not reported by a warning', '', st.path())
                    else:
                        rep.hold(R2, nm + ': ignored with a warning')
            for st, e in raises:
                if aget(st, 'failed'):
                    if e[1] != CLFATAL:
                        rep.fail(R2, fn, 'escapes as %s [%s]' % (e[1], name), 'a failed download ends with %s' % e[1], '', st.path())
                    elif st.decide(('truth', IG)) is True:
                        rep.fail(R2, fn, 'fatal although ignored [%s]' % name, 'a failed download aborts although failures are ignored', '', st.path())
                    else:
                        rep.hold(R2, nm + ': fatal client error')
    k = {'allow_deletion': TRUE}

    def els(src, n):
        return tuple(('elem', src, ('wit', i)) for i in range(n))
    for ig in (True, False):
        f = [(('truth', IG), ig)]
        g = ', failures %s' % ('ignored' if ig else 'fatal')
        case(B, k, {CREATED: els(CREATED, 1)}, 'one created' + g, f, tries=2)
        case(B, k, {UPDATED: els(UPDATED, 1)}, 'one updated' + g, f)
        case(B, k, {CREATED: els(CREATED, 2), UPDATED: els(UPDATED, 1), DELETED: els(DELETED, 1)}, 'two created, one updated, one deleted' + g, f,
             fails=frozenset(('get', 'delete')))
        case('incremental', k, {CHGP: els(CHGP, 3)}, 'created, updated and deleted changes' + g,
             f + [(mk_eq(attr(e, 'change'), C(c)), True) for e, c in zip(els(CHGP, 3), ('created', 'updated', 'deleted'))],
             fails=frozenset(('get', 'delete')))
        case('incremental', k, {CHGP: els(CHGP, 1)}, 'one created change' + g,
             f + [(mk_eq(attr(els(CHGP, 1)[0], 'change'), C('created')), True)])
    f = [(('truth', IG), False)]
    case(B, k, {CREATED: els(CREATED, 1), UPDATED: els(UPDATED, 1), DELETED: els(DELETED, 1)}, 'dry run', f, dryrun=TRUE)


def rule_C15(prog, rep, tier):
    R = rep.rule('retry-only-timeouts', """For one entry with a fixed number of tries: a further request is made only after a timeout of
        the previous one and at most `tries` requests are made; after a timeout with tries left the request is repeated.""")
    R2 = rep.rule('attempt-fresh', 'Each attempt uses the configured timeout and writes to a file opened (truncated) in that attempt.')
    R4 = rep.rule('fails-in-the-end', '''When the last try timed out the download fails: the copy is not dated or hashed, and the
        synchronization does not end normally unless failures are ignored.''')
    w = ('elem', CREATED, ('wit',))
    TMO = ('p', 'timeout')
    B = 'baseline_or_audit'
    for tries in (1, 3) if tier == 'quick' else (1, 2, 3, 4):
        def on(ip, st, kind, info, node, tries=tries):
            if kind == 'get':
                rep.event(kind, ip.where(st, node))
                n = aget(st, 'n', 0)
                last = aget(st, 'last')
                rep.at(n < tries, R, 'at most %d tries' % tries, 'request number %d with %d tries configured' % (n + 1, tries), ip, st, node)
                rep.at(n == 0 or last == 'timeout', R, 'retry after %s' % (last or 'success' if n else 'start'),
                       'a request is repeated although the previous one did not time out', ip, st, node)
                rep.at(info[1] == TMO, R2, 'timeout %s' % txt(info[1]), 'not the configured timeout', ip, st, node)
                aput(st, 'n', min(n + 1, 9))
                adel(st, 'last')
            elif kind == 'open':
                mode = info[1]
                if mapped(info[0]) or beside(info[0]):
                    rep.at(mode is not None and 'w' in mode or mode is not None and 'x' in mode, R2, 'open mode %s' % mode,
                           'the local copy is not truncated when an attempt starts', ip, st, node)
                    adel(st, 'dirty')
            elif kind in ('utime', 'hash') and aget(st, 'last') == 'timeout':
                rep.at(False, R4, '%s after the last timeout' % kind, 'the download is treated as done after its last try timed out', ip, st, node)
            elif kind in ('copy', 'write'):
                dst = info[1] if kind == 'copy' else info[0]
                n, d = aget(st, 'n', 0), aget(st, 'dirty')
                rep.at(d is None or d == n, R2, 'fresh file per attempt', 'content of an earlier attempt remains in the file', ip, st, node)
                aput(st, 'dirty', n)

        def on_fail(st, op, how):
            aput(st, 'last', how)
            if op in ('copy', 'read', 'write'):
                aput(st, 'dirty', aget(st, 'n', 0))

        def setup(ip):
            ip.exact_src[CREATED] = (w,)
        for ig in (True, False):
            for nm, s, rets, raises in runs(rep, prog, on, [(B, {})], ' [tries=%d, failures %s]' % (tries, 'ignored' if ig else 'fatal'), setup=setup,
                                            on_fail=on_fail, fails=frozenset(('get', 'copy', 'read', 'write')), read_fails=(), tries=C(tries),
                                            nonempty=(SRC, CREATED), empty=(UPDATED, DELETED), facts=[(('truth', ('p', 'ignore_failures')), ig)]):
                for st in [x for x, _ in rets] + [x for x, _ in raises]:
                    n, last = aget(st, 'n', 0), aget(st, 'last')
                    if last == 'timeout' and n < tries:
                        rep.fail(R, CLIENT + '.update_resource', 'gives up after a timeout with tries left [tries=%d]' % tries,
                                 'gives up after %d of %d tries' % (n, tries), '', st.path())
                    else:
                        rep.hold(R, nm + ': ends after %d requests, last %s' % (n, last or 'complete'))
                for st, _ in rets:
                    if aget(st, 'last') == 'timeout' and not ig:
                        rep.fail(R4, CLIENT + '.update_resource', 'normal end after the last timeout [tries=%d]' % tries,
                                 'the synchronization ends normally although the last try timed out', '', st.path())
                    else:
                        rep.hold(R4, nm + ': normal end, last %s' % (aget(st, 'last') or 'complete'))


# ---------------------------------------------------------------------- C16, C17

ROUND = {'builtins.int': int, 'math.floor': math.floor, 'math.trunc': math.trunc, 'math.ceil': math.ceil, 'builtins.round': round, 'builtins.float': float, 'builtins.abs': abs,
         'builtins.max': max, 'builtins.min': min}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b}


def at_time(t, ts, x):
    """The number of term t for the time x, None if not known."""
    if t == ts:
        return x
    if t[0] == 'c' and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == 'call' and t[1] in ROUND and len(t) > 3 and not t[3]:
        a = [at_time(y, ts, x) for y in t[2]]
        try:
            return None if None in a else ROUND[t[1]](*a)
        except (TypeError, ValueError):
            return None
    if t[0] == 'bin' and t[1] in ARITH:
        a, b = at_time(t[2], ts, x), at_time(t[3], ts, x)
        try:
            return None if a is None or b is None else ARITH[t[1]](a, b)
        except (TypeError, ValueError, ZeroDivisionError):
            return None
    return None


def whole_seconds(t, ts):
    """Is term t the time ts in whole seconds? True / False / None (not recognized)."""
    xs = (0.0, 0.25, 0.75, 1.5, 7.0, 1000.5, 1234567890.999999, 86400 * 20000)
    got = [at_time(t, ts, x) for x in xs]
    if None not in got:
        return got == [int(x) for x in xs]
    for x in (t,):
        if x[0] == 'call' and x[1] in ('builtins.int', 'math.floor', 'math.trunc') and x[2] == (ts,):
            return True
        if x[0] == 'call' and x[1] == 'builtins.int' and len(x[2]) == 1:
            return whole_seconds(x[2][0], ts)
        if x[0] == 'call' and x[1] == 'builtins.float' and len(x[2]) == 1:
            return whole_seconds(x[2][0], ts)
        if x[0] == 'bin' and x[1] == '//' and x[2] == ts and x[3] in (C(1), C(1.0)):
            return True
    if t == ts:
        return False
    if not mentions(t, ts):
        return False
    return None


def rule_C16(prog, rep, tier):
    R = rep.rule('dated-with-source-time', """On every path on which the download of an entry with a source timestamp succeeds, the last
        operation on the local copy sets both its times to int(timestamp), after the file was closed and put in place.""")

    def case(m, src, ch, facts):
        w = W(src)
        P = ('call', 'src_to_dst', (attr(w, 'uri'),), ())
        ts = attr(w, 'timestamp')

        def on(ip, st, kind, info, node):
            if kind == 'open' and (mapped(info[0]) == w or beside(info[0]) == w):
                aput(st, 'open', info[0])
                adel(st, 'dated')
            elif kind == 'close':
                o = ip.obj(st, info[0])
                if o is not None and o.attrs.get('path') == aget(st, 'open'):
                    adel(st, 'open')
            elif kind == 'rename' and info[1] == P:
                t = aget(st, 'tmpdated')
                aput(st, 'inplace', 1)
                if t is None:
                    adel(st, 'dated')
                else:
                    aput(st, 'dated', 1)
            elif kind in ('create', 'write', 'copy'):
                if kind == 'create' and info[0] == P:
                    aput(st, 'inplace', 1)
                adel(st, 'dated')
            elif kind == 'utime' and (info[0] == P or beside(info[0]) == w):
                rep.event(kind, ip.where(st, node))
                t = info[1]
                if t[0] == 'ns':
                    rep.undecided(R, 'utime with ns', txt(t))
                    aput(st, 'dated', 1)
                    return
                ex = t[1] if t[0] == 'tup' else None
                if ex is None or len(ex) != 2:
                    ok = None if t != NONE else False
                else:
                    rs = [whole_seconds(x, ts) for x in ex]
                    ok = False if False in rs else (None if None in rs else True)
                if ok is None:
                    rep.undecided(R, 'times %s' % txt(t), 'form of the times not recognized')
                    ok = True
                else:
                    rep.at(ok, R, 'times set to %s' % txt(t), 'not the source timestamp in whole seconds', ip, st, node)
                rep.at(aget(st, 'open') is None, R, 'dated after close', 'the times are set while the file is still open for writing', ip, st, node)
                if info[0] == P:
                    aput(st, 'dated', 1)
                else:
                    aput(st, 'tmpdated', 1)
            if kind == 'get' and info[0] == attr(w, 'uri'):
                aput(st, 'get', 1)
                adel(st, 'tmpdated')

        def setup(ip):
            ip.exact_src[src] = (w,)
        for nm, s, rets, raises in runs(rep, prog, on, [(m, {})], ' [%s]' % ch, setup=setup, fails=QUIET, read_fails=(),
                                        facts=list(facts) + [(('isnone', ts), False)], nonempty=(SRC, src, CHG, CHGT),
                                        empty=tuple(x for x in (CREATED, UPDATED, DELETED) if x != src), bad_datetime=False, state=('p', 'state')):
            for st, v in rets:
                if not aget(st, 'get'):
                    continue
                if aget(st, 'dated'):
                    rep.hold(R, nm + ': dated at the end')
                else:
                    rep.fail(R, CLIENT + '.update_resource', 'not dated [%s]' % ch, 'the local copy does not carry the source timestamp at the end', '', st.path())
    case('baseline_or_audit', CREATED, 'created', ())
    case('baseline_or_audit', UPDATED, 'updated', ())
    for ch in ('created', 'updated'):
        case('incremental', CHGP, 'change ' + ch, [(mk_eq(attr(W(CHGP), 'change'), C(ch)), True)])


HASHES = (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256'))


def rule_C17(prog, rep, tier):
    R = rep.rule('mismatch-logged', """With the stored file's length or one digest different from the source's value (the comparison
        decided that way), every path logs at a program point that is not reached when all values match.""")
    R2 = rep.rule('own-type-compared', """Each digest is compared with the source value of the same type, computed over the stored
        file, and its type is among those computed.""")
    w = ('elem', CREATED, ('wit',))
    P = ('call', 'src_to_dst', (attr(w, 'uri'),), ())
    B = 'baseline_or_audit'

    def is_size(t):
        return any(x[0] in ('fresh', 'call') and x[1] in ('os.stat', 'os.path.getsize', 'os.lstat') or x[0] == 'attr' and x[2] == 'st_size'
                   for x in subterms(t))

    def hashes_of(t):
        """(type, hasher) if t is a digest of a Hashes object."""
        if t[0] == 'attr' and t[1][0] == 'call' and t[1][1] == 'Hashes':
            return t[2], t[1]
        return None

    def one(kinds, have, zero=False):
        """Log sites of each returning path with the values of `kinds` differing and the others matching."""
        paths = []
        asked = set()

        def bh(ip, st, atom, node):
            if atom[0] != 'eq':
                return None
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if x == attr(w, 'length') and is_size(y):
                    asked.add('length')
                    return 'length' not in kinds
                h = hashes_of(x)
                if h is not None and mentions(y, w) and y[0] == 'attr':
                    typ = {'md5': 'md5', 'sha1': 'sha1', 'sha256': 'sha256'}.get(h[0])
                    if y[2] in ('md5', 'sha1', 'sha256'):
                        asked.add(y[2])
                        rep.at(typ == y[2], R2, 'comparison of %s with %s' % (y[2], h[0]), 'digest compared with a value of another type', ip, st, node)
                        names = [t[2] for t in h[1][2][0][1]] if h[1][2][0][0] == 'tup' and all(t[0] == 'c' for t in h[1][2][0][1]) else None
                        nm = dict((b, a) for a, b in HASHES)[y[2]]
                        rep.at(names is None or nm in names, R2, '%s is computed' % nm, 'digest compared without being computed', ip, st, node)
                        rep.at(h[1][2][1] == P, R2, 'digest of %s' % txt(h[1][2][1]), 'digest of something else than the stored file', ip, st, node)
                        return y[2] not in kinds
            return None

        def on(ip, st, k, info, node):
            if k == 'get' and info[0] == attr(w, 'uri'):
                aput(st, 'got', 1)

        def setup(ip):
            ip.exact_src[CREATED] = (w,)
            ip.exact_src[SRC] = (w,)
            ip.branch_hook = bh

            def lg(ip, st, level, args, node):
                if aget(st, 'got'):
                    s = set(aget(st, 'logs', ()))
                    s.add((st.fn.qualname, node.lineno, node.col_offset) + tuple((f.node.lineno, f.node.col_offset) for f in st.stack if hasattr(f.node, 'lineno')))
                    aput(st, 'logs', tuple(sorted(s)))
            log_hooks(ip, lg)
        facts = []
        for a in ('length', 'md5', 'sha1', 'sha256'):
            facts.append((('isnone', attr(w, a)), a not in have))
            if a in have:
                facts.append((('truth', attr(w, a)), not zero))
                if zero:
                    facts.append((mk_eq(attr(w, a), C(0)), True))
        res = runs(rep, prog, on, [(B, {})], ' [%s differs; source gives %s%s]' % (' and '.join(kinds) or 'nothing', ', '.join(have), ' zero' if zero else ''), setup=setup, fails=QUIET, read_fails=(),
                   hashes=hs, facts=facts, nonempty=(SRC, CREATED), empty=(UPDATED, DELETED))
        for nm, s, rets, raises in res:
            for st, v in rets:
                paths.append((st, frozenset(aget(st, 'logs', ()))))
        return paths, asked
    ALL = ('length', 'md5', 'sha1', 'sha256')
    hs = ('tup', (C('md5'), C('sha-1'), C('sha-256')))
    for have, zero in [(ALL, False)] + [((a,), False) for a in ALL] + [(('length',), True)]:
        match, asked0 = one((), have, zero)
        m0 = frozenset().union(*[p for _, p in match]) if match else frozenset()
        own = {}
        for kind in have:
            diff, asked = one((kind,), have, zero)
            own[kind] = frozenset().union(*[p for _, p in diff]) - m0 if diff else frozenset()
            for st, logs in diff:
                if logs - m0:
                    rep.hold(R, '%s differs (source gives %s): logged' % (kind, ', '.join(have)))
                else:
                    rep.fail(R, CLIENT + '.update_resource', 'mismatch of %s not logged [source gives %s]' % (kind, ', '.join(have)),
                             'a differing %s of the stored file is not logged' % kind, '', st.path())
            if not diff:
                rep.undecided(R, kind, 'no path ends normally')
        # several at once: each is still logged
        for kinds in itertools.combinations(have, 2) if len(have) > 1 else ():
            for st, logs in one(kinds, have)[0]:
                for kind in kinds:
                    rep.check(bool(logs & own[kind]), R, CLIENT + '.update_resource', 'mismatch of %s not logged when %s differ' % (kind, ' and '.join(kinds)),
                              '%s differ: %s logged' % (' and '.join(kinds), kind), 'a differing %s of the stored file is not logged' % kind, st)


# ---------------------------------------------------------------------- C45

def rule_C45(prog, rep, tier):
    R = rep.rule('replace-when-complete', """The mapped path of an entry is never opened for writing, truncated or removed by a download; it
        is only replaced by renaming a file that was written completely (copy finished, file closed, no failure since
        the request).""")

    def on(ip, st, kind, info, node):
        if kind == 'get':
            for k in ('failed', 'complete', 'open'):
                adel(st, k)
        elif kind == 'open':
            rep.event(kind, ip.where(st, node))
            e = mapped(info[0])
            rep.at(e is None, R, 'open %s for writing' % txt(info[0]), 'the existing local copy is overwritten in place', ip, st, node)
            aput(st, 'open', info[0])
            adel(st, 'complete')
        elif kind == 'close':
            o = ip.obj(st, info[0])
            if o is not None and o.attrs.get('path') == aget(st, 'open'):
                adel(st, 'open')
        elif kind in ('copy', 'write'):
            f = info[1] if kind == 'copy' else info[0]
            o = ip.obj(st, f)
            if o is not None and not aget(st, 'failed'):
                aput(st, 'complete', o.attrs.get('path'))
        elif kind == 'rename':
            rep.event(kind, ip.where(st, node))
            e = mapped(info[1])
            if e is not None:
                n = 'rename %s to %s' % (txt(info[0]), txt(info[1]))
                rep.at(not aget(st, 'failed'), R, n + ': no failure', 'the local copy is replaced after a failure', ip, st, node)
                rep.at(aget(st, 'complete') == info[0], R, n + ': completely written', 'the local copy is replaced by a file that was not written completely', ip, st, node)
                rep.at(aget(st, 'open') is None, R, n + ': closed', 'the local copy is replaced by a file that is still open', ip, st, node)
            if mapped(info[0]) is not None:
                rep.at(False, R, 'rename of %s' % txt(info[0]), 'the existing local copy is moved away', ip, st, node)
        elif kind == 'create':
            e = mapped(info[0])
            if e is not None:
                ok = len(info) > 1 and not aget(st, 'failed') and aget(st, 'complete') == info[1] and aget(st, 'open') is None
                rep.at(ok, R, 'create %s' % txt(info[0]), 'the existing local copy is overwritten before the content is complete', ip, st, node)
        elif kind == 'delete':
            e = mapped(info[0])
            if e is not None:
                rep.event(kind, ip.where(st, node))
                ok = e[1] == DELETED or st.decide(mk_eq(attr(e, 'change'), C('deleted'))) is True
                rep.at(ok, R, 'delete %s' % txt(info[0]), 'the existing local copy is removed by a download', ip, st, node)

    def on_fail(st, op, how):
        if op in DOWNLOAD_OPS:
            aput(st, 'failed', 1)
    B, I = 'baseline_or_audit', 'incremental'
    w1, w2 = ('elem', CREATED, ('wit', 0)), ('elem', UPDATED, ('wit', 0))
    c1, c2 = ('elem', CHGP, ('wit', 0)), ('elem', CHGP, ('wit', 1))

    def case(m, exact, name, facts=(), **opt):
        def setup(ip):
            for src, t in exact.items():
                ip.exact_src[src] = t
        ne = tuple(exact) + ((SRC,) if m == B else (CHG, CHGT))
        runs(rep, prog, on, [(m, {'allow_deletion': TRUE})], ' [%s]' % name, setup=setup, on_fail=on_fail, read_fails=(), nonempty=ne,
             empty=tuple(x for x in (CREATED, UPDATED, DELETED) if x not in exact) if m == B else (), facts=facts, bad_datetime=False,
             state=('p', 'state'), **opt)
    ops = DOWNLOAD_OPS | frozenset(('delete', 'utime', 'chmod', 'create'))
    case(B, {CREATED: (w1,), UPDATED: (w2,)}, 'one created, one updated', fails=ops)
    case(B, {CREATED: (w1,)}, 'one created, three tries', fails=ops, tries=C(3))
    for a, b in (('updated', 'created'), ('deleted', 'updated'), ('created', 'deleted')):
        case(I, {CHGP: (c1, c2)}, '%s then %s' % (a, b), fails=ops,
             facts=[(mk_eq(attr(c1, 'change'), C(a)), True), (mk_eq(attr(c2, 'change'), C(b)), True)])
    for m, kw in ENTRIES[:3]:
        runs(rep, prog, on, [(m, dict(kw, allow_deletion=TRUE))], ' [any entries]', on_fail=on_fail,
             fails=frozenset(('get', 'copy', 'read', 'write', 'delete')), tries=C(1), read_fails=(), bad_datetime=False, state=('p', 'state'))
