"""Rules about the command line programs (C36)."""
import itertools

from ..state import C, Obj
from ..drive import Driver, judge, Pred
from ..stubs import ARGS
from ..model import AnchorError
from .common import scenario

SOURCE = '''
from rsastub import ARGV
from resync.client import Client
from resync.url_or_file_open import CONFIG

NAMES = ('spec_version', 'hashes', 'verbose', 'dryrun', 'resource_list_name', 'change_list_name', 'dump_format', 'exclude_patterns', 'sitemap_name',
         'capability_list_uri', 'allow_multifile', 'noauth', 'strictauth', 'max_sitemap_entries', 'ignore_failures', 'pretty_xml', 'fake_input',
         'tries', 'timeout', 'status_file', 'default_resource_dump', 'default_change_dump')
DONE = []


def maps(m):
    return [(x.src_uri, x.dst_path) for x in m.mappings]


def settings(c):
    return {n: getattr(c, n, 'not there') for n in NAMES}


def done(op, client, args):
    DONE.append((op, args, settings(client), maps(client.mapper), CONFIG.get('bearer_token'), CONFIG.get('delay')))


def fresh():
    c = Client()
    return settings(c), CONFIG.get('bearer_token'), CONFIG.get('delay'), len(c.mapper)


def run(main, argv, mapping):
    for x in argv:
        ARGV.append(x)
    try:
        main()
    except SystemExit:
        pass
    except Exception:
        if not DONE:
            return DONE, []
        raise
    return DONE, maps(Mapper(mapping, use_default_path=True)) if mapping else []
'''

OPS = {
    'resync.client.Client.baseline_or_audit': ('allow_deletion', 'audit_only'),
    'resync.client.Client.incremental': ('allow_deletion', 'change_list_uri', 'from_datetime'),
    'resync.client.Client.parse_document': (),
    'resync.client.Client.write_resource_list': ('paths', 'outfile', 'links', 'dump'),
    'resync.client.Client.write_change_list': ('paths', 'outfile', 'ref_sitemap', 'newref_sitemap', 'empty', 'links', 'dump'),
    'resync.client.Client.write_capability_list': ('capabilities', 'outfile', 'links'),
    'resync.client.Client.write_source_description': ('capability_lists', 'outfile', 'links'),
    'resync.explorer.Explorer.explore': (),
}


def _same(items):
    """The given links in any order."""
    def fn(S, st, got):
        if got == C(None):
            return not items
        if not isinstance(got, tuple) or any(not isinstance(x, dict) for x in got):
            return None
        rest = [{(k[2] if k[0] == 'c' else k): v for k, v in x.items()} for x in got]
        for w in items:
            w = {k: v if isinstance(v, tuple) else C(v) for k, v in w.items()}
            if w not in rest:
                return False
            rest.remove(w)
        return not rest
    return Pred('the links %s' % items, fn)


class Opt(object):
    """An option: its tokens and what it does: {setting: value}."""

    def __init__(self, name, value=None, alias=(), **does):
        self.name = name
        self.value = value
        self.alias = alias
        self.does = does


def shared(remote):
    o = [
        Opt('--hash', 'sha-256', hashes=frozenset([C('sha-256')])),
        Opt('--hash', 'sha-1', hashes=frozenset([C('sha-1')])),
        Opt('--checksum', hashes=frozenset([C('md5')])),
        Opt('--exclude', '$x', exclude_patterns=['$x']),
        Opt('--exclude', '$y', exclude_patterns=['$y']),
        Opt('--multifile', alias=('-m',), allow_multifile=False),
        Opt('--verbose', alias=('-v',), verbose=True),
        Opt('--max-sitemap-entries', '7', max_sitemap_entries=7),
        Opt('--logger', alias=('-l',)),
        Opt('--logfile', '$l'),
        Opt('--eval', alias=('-e',)),
    ]
    if remote:
        o += [Opt('--noauth', noauth=True), Opt('--access-token', '$t', token='$t'), Opt('--delay', '1.5', delay=1.5)]
    return o


SYNC = shared(True) + [
    Opt('--spec-version', '1.0', spec_version='1.0'),
    Opt('--sitemap', '$s', sitemap_name='$s'),
    Opt('--capabilitylist', '$c', alias=('--capability-list',), capability_list_uri='$c'),
    Opt('--changelist-uri', '$u', alias=('--change-list-uri',), change_list_uri='$u'),
    Opt('--from', '$f', from_datetime='$f'),
    Opt('--delete', allow_deletion=True),
    Opt('--strictauth', strictauth=True),
    Opt('--dryrun', alias=('-n',), dryrun=True),
    Opt('--ignore-failures', ignore_failures=True),
    Opt('--tries', '3', alias=('-t',), tries=3),
    Opt('--timeout', '9', alias=('-T',), timeout=9),
    Opt(None, 'http://example.org/=/dst', map=['http://example.org/=/dst']),
    Opt(None, 'http://example.com/a=/dst2', map=['http://example.com/a=/dst2']),
]
SYNC_MODES = [
    (('--baseline', '-b'), None, 'baseline_or_audit', {'allow_deletion': False, 'audit_only': False}),
    (('--audit', '-a'), None, 'baseline_or_audit', {'allow_deletion': False, 'audit_only': True}),
    (('--incremental', '--inc', '-i'), None, 'incremental', {'allow_deletion': False, 'change_list_uri': None, 'from_datetime': None}),
    (('--parse', '-p'), None, 'parse_document', {}),
]
LINK = 'next,http://example.org/n,type=text/html,pri=1'
BUILD = shared(False) + [
    Opt('--spec-version', '1.0', spec_version='1.0'),
    Opt(None, 'http://example.org/=/dst', map=['http://example.org/=/dst']),
    Opt('--outfile', '$o', outfile='$o'),
    Opt('--paths', '$p', paths='$p'),
    Opt('--newreference', '$n', newref_sitemap='$n'),
    Opt('--reference', '$r', ref_sitemap='$r'),
    Opt('--empty', empty=True),
    Opt('--warc', dump_format='warc'),
    Opt('--dryrun', alias=('-n',), dryrun=True),
    Opt('--link', LINK, links=[{'rel': 'next', 'href': 'http://example.org/n', 'type': 'text/html', 'pri': '1'}]),
    Opt('--link', 'prev,http://example.org/p', links=[{'rel': 'prev', 'href': 'http://example.org/p'}]),
    Opt('--describedby-link', '$d', links=[{'rel': 'describedby', 'href': '$d'}]),
    Opt('--sourcedescription-link', '$sd', alias=('--source-description-link',), source='$sd'),
    Opt('--capabilitylist-link', '$cl', alias=('--capability-list-link',), up='$cl'),
]
_RL = {'paths': None, 'outfile': None, 'links': [], 'dump': False}
_CH = {'paths': None, 'outfile': None, 'ref_sitemap': None, 'newref_sitemap': None, 'empty': False, 'links': [], 'dump': False}
BUILD_MODES = [
    (('--write-resourcelist', '--write-resource-list'), None, 'write_resource_list', _RL),
    (('--write-resourcedump', '--write-resource-dump', '-d'), None, 'write_resource_list', dict(_RL, dump=True)),
    (('--write-changelist', '--write-change-list'), None, 'write_change_list', _CH),
    (('--write-changedump', '--write-change-dump'), None, 'write_change_list', dict(_CH, dump=True)),
    (('--write-capabilitylist', '--write-capability-list'), 'resourcelist=http://example.org/rl,changelist=http://example.org/cl', 'write_capability_list',
     {'capabilities': {'resourcelist': 'http://example.org/rl', 'changelist': 'http://example.org/cl'}, 'outfile': None, 'links': []}),
    (('--write-sourcedescription', '--write-source-description'), 'http://example.org/a,http://example.org/b', 'write_source_description',
     {'capability_lists': ['http://example.org/a', 'http://example.org/b'], 'outfile': None, 'links': []}),
]
EXPLORE = [o for o in shared(True) if o.name != '--eval'] + [Opt('--sitemap', '$s', sitemap_name='$s')]
EXPLORE_MODES = [((None,), None, 'explore', {})]
PROGRAMS = {'resync-sync': (SYNC_MODES, SYNC), 'resync-build': (BUILD_MODES, BUILD), 'resync-explorer': (EXPLORE_MODES, EXPLORE)}


def rule_C36(prog, rep, tier):
    R = rep.rule('options', """Every mode of every program with every option, every spelling, every pair of options and all together: the operation that runs, its
        arguments and the settings of the client and of web access when it starts.""")
    R2 = rep.rule('refused', 'No mode, two modes, and unacceptable values: nothing runs.')
    R3 = rep.rule('defaults', 'What holds without options.')

    def driver(program):
        S = Driver(prog, SOURCE, 'CLI', subst=(ARGS,), budget=40000000)
        key = 'script:%s.main' % program
        if key not in prog.functions:
            raise AnchorError('no function main in ' + program)
        for q, names in OPS.items():
            if q not in prog.functions:
                raise AnchorError('no ' + q)
            S.ip.intercepts[q] = hook(S, q, names)
        S.ip.intercepts['resync.client_utils.init_logging'] = lambda ip, st, fi, selfv, args, kws, node: [(st, C(None))]
        return S, ('fn', key, None)

    def hook(S, q, names):
        def h(ip, st, fi, selfv, args, kws, node):
            env = ip.bind(fi, selfv, args, kws, st, node)
            if env is None:
                ip.throw(st, 'builtins.TypeError', (C('bad call of %s' % q),), node)
                return []
            items = tuple((C(n), env.get(n, C('no such parameter')), True) for n in names)
            d = ip.alloc(st, node, Obj('dict', items=items), 'args')
            return ip.call_function(ip.prog.functions[S.key + '.done'], None, [C(q.split('.')[-1]), selfv, d], {}, st, node)
        return h

    def defaults(S):
        rets, raises = S.call('fresh', [])
        if len(rets) != 1 or raises:
            raise AnchorError('the settings of a new client are not known')
        return S.plain(*rets[0])

    def run(S, main, base, R, program, case, group, mode, opts, spelling=0, alias=(), first=False):
        """mode: (spellings, value, operation, arguments) or None for an unacceptable line."""
        st = S.state()
        sym = {}

        def val(x):
            if isinstance(x, str) and x[:1] == '$':
                if x not in sym:
                    sym[x] = S.value(st, 'option' + x[1:], 'str')
                return sym[x]
            return x
        argv = []
        for o in opts:
            argv.append((o.alias[0] if o in alias else o.name, val(o.value)))
        if mode is not None and mode[0][0] is not None:
            argv.insert(0 if first else len(argv), (mode[0][spelling], mode[1]))
        mapping = [o.value for o in opts if o.name is None]
        rets, raises = S.call('run', [main, argv, mapping], st)
        site = 'script:%s.main' % program
        if mode is None or mode[2] == 'write_change_list' and not any('empty' in o.does or 'ref_sitemap' in o.does for o in opts):
            return judge(rep, S, R2, site, case, group, rets, raises, ((), Pred('anything', lambda S, st, got: True)))
        settings = {k[2]: v for k, v in base[0].items()}
        args = dict(mode[3])
        token, delay = base[1], base[2]
        for o in opts:
            for k, v in o.does.items():
                if k == 'hashes':
                    settings[k] = frozenset(settings[k]) | v
                elif k == 'exclude_patterns':
                    settings[k] = tuple(settings[k]) + tuple(val(x) for x in v)
                elif k == 'token':
                    token = val(v)
                elif k == 'delay':
                    delay = v
                elif k == 'map':
                    pass
                elif k in ('links', 'source', 'up'):
                    if 'links' in args:
                        if k == 'source':
                            v = [{'rel': 'up', 'href': v}] if mode[2] == 'write_capability_list' else []
                        elif k == 'up':
                            v = [{'rel': 'up', 'href': v}] if mode[2] not in ('write_capability_list', 'write_source_description') else []
                        args['links'] = args['links'] + [{a: val(b) for a, b in x.items()} for x in v]
                elif k in settings:
                    settings[k] = val(v)
                elif k in args:
                    args[k] = val(v)
        if 'links' in args:
            args['links'] = _same(args['links'])
        if program == 'resync-explorer':
            settings['spec_version'] = Pred('anything', lambda S, st, got: True)
        if not settings['hashes']:
            settings['hashes'] = Pred('no hashes', lambda S, st, got: got in (frozenset(), (), C(None)))
        if settings['exclude_patterns'] == ():
            settings['exclude_patterns'] = Pred('no patterns', lambda S, st, got: got in (frozenset(), (), C(None)))

        def whole(S, st, got):
            from ..drive import match
            if not (isinstance(got, tuple) and len(got) == 2):
                return None
            want = ((mode[2], args, settings, got[1], token, delay),)
            r = match(S, st, got[0], want, 'what runs')
            if r is None:
                return True
            whole.text = r
            return False if r[1] else None

        def pred(S, st, got, path):
            x = whole(S, st, got)
            return None if x is True else whole.text if x is False else ('not known', False)
        p = Pred('', None)
        p.__class__ = type('Whole', (Pred,), {'__call__': lambda self, S, st, got, path: pred(S, st, got, path)})
        return judge(rep, S, R, site, case, group, rets, raises, p)

    def text(o):
        return (o.name or 'mapping') + ('' if o.value is None else ' ' + o.value.lstrip('$'))

    for program, (modes, opts) in PROGRAMS.items():
        for mode in modes:
            name = '%s %s' % (program, mode[0][0] or '')

            def go(program=program, modes=modes, mode=mode, opts=opts, name=name):
                S, main = driver(program)
                base = defaults(S)
                need = [o for o in opts if 'ref_sitemap' in o.does] if mode[2] == 'write_change_list' else []
                n = 0
                for i in range(len(mode[0])):
                    n += run(S, main, base, R, program, name + (' as %s' % mode[0][i] if i else ''), name, mode, need, i)
                for o in opts:
                    for al in ([], [o]) if o.alias else ([],):
                        for first in (False, True):
                            n += run(S, main, base, R, program, '%s with %s%s' % (name, text(o), ' as ' + o.alias[0] if al else ''), '%s with %s' % (name, text(o)), mode,
                                     [o] + [x for x in need if x is not o], 0, al, first)
                for a, b in itertools.combinations(opts, 2) if mode in modes[0::2] or tier == 'thorough' else ():
                    n += run(S, main, base, R, program, '%s with %s and %s' % (name, text(a), text(b)), '%s with %s' % (name, text(a)), mode, [a, b] + [x for x in need if x not in (a, b)])
                n += run(S, main, base, R, program, name + ' with all options', name + ' with all options', mode, opts)
                n += run(S, main, base, R, program, name + ' with all options', name + ' with all options', mode, opts[::-1])
                if need:
                    n += run(S, main, base, R, program, name + ' without a reference', name + ' without a reference', mode, [])
                    for o in opts:
                        if o not in need:
                            n += run(S, main, base, R, program, '%s with %s, no reference' % (name, text(o)), name + ' without a reference', mode, [o])
                if tier == 'thorough':
                    for t in itertools.combinations(opts, 3):
                        n += run(S, main, base, R, program, '%s with %s' % (name, ', '.join(text(o) for o in t)), '%s with %s' % (name, text(t[0])), mode, list(t) + [x for x in need if x not in t])
                rep.absorb(S.ip, name, n)
            scenario(rep, name, go)

        def go(program=program, modes=modes, opts=opts):
            S, main = driver(program)
            base = defaults(S)
            n = 0
            bad = [Opt('--spec-version', '1.2'), Opt('--max-sitemap-entries', 'x'), Opt('--no-such-option')]
            if program != 'resync-build':
                bad += [Opt('--delay', 'x'), Opt('--delay', '-1')]
            else:
                bad += [Opt('--link', x) for x in ('next', 'next,', 'next,http://example.org/,a', 'next,http://example.org/,=b', 'next,http://example.org/,a=')]
            if program == 'resync-sync':
                bad += [Opt('--tries', 'x'), Opt('--timeout', '1s')]
            if len(modes) > 1:
                n += run(S, main, base, R2, program, 'no mode', program + ', modes', None, [])
                for o in opts:
                    n += run(S, main, base, R2, program, 'no mode, ' + text(o), program + ', modes', None, [o])
                for a, b in itertools.permutations(modes, 2):
                    n += run(S, main, base, R2, program, 'modes %s and %s' % (a[0][0], b[0][0]), program + ', modes', None, [Opt(a[0][0], a[1]), Opt(b[0][-1], b[1])] + [o for o in opts if 'empty' in o.does])
            for m in modes:
                for o in bad:
                    rest = [Opt(m[0][0], m[1])] if m[0][0] else []
                    n += run(S, main, base, R2, program, '%s with %s' % (m[0][0] or program, text(o)), program + ', values', None, rest + [o] + [x for x in opts if 'empty' in x.does])
            if program == 'resync-build':
                for v in ('resourcelist', 'resourcelist=a=b', 'resourcelist=http://example.org/,x'):
                    n += run(S, main, base, R2, program, '--write-capabilitylist ' + v, program + ', values', None, [Opt('--write-capabilitylist', v)])
            rep.absorb(S.ip, program + ' refusing', n)
        scenario(rep, program + ' refusing', go)

    def go():
        S, main = driver('resync-sync')
        st = S.state()
        rets, raises = S.call('fresh', [], st)
        some = Pred('anything', lambda S, st, got: True)
        none = Pred('nothing', lambda S, st, got: got in (frozenset(), (), C(None)))
        want = {'spec_version': '1.1', 'hashes': none, 'verbose': False, 'dryrun': False, 'dump_format': None, 'exclude_patterns': none, 'sitemap_name': None,
                'capability_list_uri': None, 'allow_multifile': True, 'noauth': False, 'strictauth': False, 'max_sitemap_entries': None, 'ignore_failures': False,
                'fake_input': None, 'tries': 20, 'timeout': None}
        for x in ('resource_list_name', 'change_list_name', 'pretty_xml', 'status_file', 'default_resource_dump', 'default_change_dump'):
            want[x] = some
        n = judge(rep, S, R3, 'resync.client.Client.__init__', 'a new client', 'a new client', rets, raises, (want, None, None, 0))
        rep.absorb(S.ip, 'defaults', n)
    scenario(rep, 'defaults', go)
