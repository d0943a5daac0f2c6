"""Rules about requests (C32) and the state file (C13)."""
import itertools

from ..state import C, mk_eq, show
from ..drive import Driver, judge, Pred
from ..stubs import FILES, NET, CONFIG, TIMES
from .common import scenario
from .lint_rules import gateway

OPEN = '''
import resync.url_or_file_open
from resync.url_or_file_open import url_or_file_open, set_url_or_file_open_config
from resync import __version__


def run(steps):
    LOG.clear()
    answers = []
    for s in steps:
        if s[0] == 'set':
            set_url_or_file_open_config(s[1], s[2])
        elif s[0] == 'fails':
            FAIL.append(s[1])
        else:
            try:
                f = url_or_file_open(s[1], **s[2])
                answers.append(f.name)
            except OSError:
                answers.append('failed')
    return [x for x in LOG if x[0] in ('request', 'sleep')], answers, __version__
'''


def rule_C32(prog, rep, tier):
    R = rep.rule('requests', """Histories of up to four requests to web and file places with the token and the delay set, changed or removed in between, and failing
        requests: exactly one request each, with the client's name and the token if one is set, after the delay if one is set, the place is on the web and the
        request is not the first of all.""")
    R2 = rep.rule('parameters', 'Method and timeout of the request are the ones given; none given means the defaults.')
    site = 'resync.url_or_file_open.url_or_file_open'
    KINDS = {'web': 'http://example.org/a', 'secure': 'https://example.org/b?c=d', 'local': '/data/a', 'file': 'file:///data/b', 'relative': 'dir/c'}

    def want(steps, delay=None, token=None):
        log, answers, fails, count = [], [], set(), 0
        for s in steps:
            if s[0] == 'set':
                if s[1] == 'delay':
                    delay = s[2]
                else:
                    token = s[2]
                continue
            if s[0] == 'fails':
                fails.add(s[1])
                continue
            uri = s[1] if ':' in s[1] else 'file:' + s[1]
            if count and delay is not None and not uri.startswith('file:'):
                log.append(('sleep', delay))
            count += 1

            def headers(S, st, got, token=token):
                if not isinstance(got, dict) or len(got) != (2 if token is not None else 1):
                    return False
                agent = got.get(C('User-agent'))
                if agent is None or agent[0] != 'c' or not str(agent[2]).startswith('resync'):
                    return False
                return token is None or show(got.get(C('Authorization'))) in ("'Bearer ' + %s" % show(token), "Bearer %s" % show(token))
            log.append(('request', uri, Pred('the name of the client and the token %s' % ('' if token is not None else '(none)'), headers), s[2].get('method', 'GET'), s[2].get('timeout', 'default')))
            answers.append(uri if uri not in fails else 'failed')
        return tuple(tuple(x if isinstance(x, Pred) or isinstance(x, tuple) else C(x) for x in e) for e in log), tuple(C(a) for a in answers), Pred('the version', lambda S, st, g: True)

    def run(S, name, group, rule, make):
        st = S.state()
        d, e, t, u = [S.value(st, x, 'float') for x in ('delay', 'delay2')] + [S.value(st, x, 'str') for x in ('token', 'token2')]
        for x in (d, e):
            st.learn(('truth', x), True)
        steps = make(S, st, d, e, t, u)
        rets, raises = S.call('run', [[tuple(s) for s in steps]], st)
        return judge(rep, S, rule, site, name, group, rets, raises, want(steps))

    def go(first):
        S = Driver(prog, OPEN, 'OPEN', budget=4000000, subst=(NET, FILES))
        n = 0
        SETS = {'none': [], 'delay': [('set', 'delay', 'd')], 'other delay': [('set', 'delay', 'e')], 'no delay': [('set', 'delay', None)],
                'token': [('set', 'bearer_token', 't')], 'other token': [('set', 'bearer_token', 'u')], 'no token': [('set', 'bearer_token', None)],
                'both': [('set', 'bearer_token', 't'), ('set', 'delay', 'd')]}
        for length in (1, 2, 3, 4):
            for rest in itertools.product(('web', 'secure', 'local', 'file', 'relative') if length < 3 else ('web', 'local') if length == 4 else ('secure', 'file', 'web'), repeat=length - 1):
                kinds = (first,) + rest
                for before in itertools.product(('none', 'delay', 'token', 'both', 'no delay', 'no token') if length == 1 else ('none', 'both', 'delay') if length == 4 else ('none', 'delay', 'both'),
                                                ('none',) if length == 1 else ('none', 'no delay', 'other delay', 'other token', 'no token', 'delay')):
                    for bad in (None, 0) if length in (2, 3) else (None,):
                        def make(S, st, d, e, t, u, kinds=kinds, before=before, bad=bad):
                            v = {'d': d, 'e': e, 't': t, 'u': u, None: None}
                            steps = [(s[0], s[1], v[s[2]]) for s in SETS[before[0]]]
                            if bad is not None:
                                w = KINDS[kinds[bad]]
                                steps.append(('fails', w if ':' in w else 'file:' + w))
                            for i, k in enumerate(kinds):
                                if i == max(1, len(kinds) - 2):
                                    steps += [(s[0], s[1], v[s[2]]) for s in SETS[before[1]]]
                                steps.append(('get', KINDS[k], {}))
                            return steps
                        n += run(S, 'requests %s, set %s, then %s%s' % (', '.join(kinds), before[0], before[1], ', the first fails' if bad is not None else ''),
                                 '%d requests, %s then %s%s' % (length, before[0], before[1], ', failing' if bad is not None else ''), R, make)
        rep.absorb(S.ip, 'requests, first ' + first, n)
    for first in ('web', 'local', 'file', 'secure', 'relative'):
        scenario(rep, 'requests, first ' + first, go, first)

    def go():
        S = Driver(prog, OPEN, 'OPEN', budget=4000000, subst=(NET, FILES))
        n = 0
        for place in KINDS:
            for method in (None, 'HEAD', 'GET', 'POST', 'unknown'):
                for timeout in (None, 10, 0.5, 'unknown'):
                    for conf in (False, True):
                        def make(S, st, d, e, t, u):
                            kws = {}
                            if method is not None:
                                kws['method'] = S.value(st, 'method', 'str', ('GET',)) if method == 'unknown' else method
                            if timeout is not None:
                                kws['timeout'] = S.value(st, 'timeout', 'float') if timeout == 'unknown' else timeout
                                if timeout == 'unknown':
                                    st.learn(('truth', kws['timeout']), True)
                            return ([('set', 'delay', d), ('set', 'bearer_token', t)] if conf else []) + [('get', KINDS[place], kws)]
                        n += run(S, '%s place, method %s, timeout %s%s' % (place, method, timeout, ', token and delay' if conf else ''), '%s place, method %s' % (place, method), R2, make)
        rep.absorb(S.ip, 'parameters', n)
    scenario(rep, 'parameters', go)
    scenario(rep, 'gateway', gateway, prog, rep)


STATE = '''
from resync.client_state import ClientState

NAME = '.resync-client-status.cfg'


def run(content, steps, keep):
    if content is not None:
        FILES[NAME] = [content]
    LOG.clear()
    answers = []
    state = ClientState()
    for s in steps:
        if not keep:
            state = ClientState()
        if s[0] == 'set':
            try:
                state.set_state(s[1], s[2])
            except OSError:
                answers.append('failed')
        elif s[0] == 'clear':
            state.set_state(s[1])
        elif s[0] == 'fails':
            FULL.append('*')
        elif s[0] == 'get':
            answers.append(state.get_state(s[1]))
        elif s[0] == 'broken':
            answers.append(broken())
        elif s[0] == 'file':
            answers.append(FILES[NAME][0] if NAME in FILES else None)
    return answers


def broken():
    """What a crash could leave in place of the state file, from the record of file operations."""
    bad = []
    being = {}
    for e in LOG:
        if e[0] == 'open' and e[2][0:1] != 'r':
            being[e[1]] = True
            if e[1] == NAME:
                bad.append('written in place')
        elif e[0] == 'close':
            being[e[1]] = False
        elif e[0] == 'copy' and e[2] == NAME:
            bad.append('copied into place')
        elif e[0] == 'remove' and e[1] == NAME:
            bad.append('removed')
        elif e[0] == 'rename' and e[1] == NAME:
            bad.append('moved away')
        elif e[0] == 'rename' and e[2] == NAME:
            if e[1] not in being or being[e[1]]:
                bad.append('moved into place unfinished')
            if '/' in (e[1][2:] if e[1][0:2] == './' else e[1]):
                bad.append('moved from another directory')
    return bad
'''

SITES = ['http://example.org/a', 'http://example.org/ab', 'https://example.org/a', 'http://example.org:8080/a', 'http://www.example.org/a',
         'http://example.org/a/' + 'long/' * 12 + 'x', 'http://example.org/a/' + 'long/' * 12 + 'y', '/local/dir', 'http://example.org/\u00e9', 'x']
ALIKE = {'only in characters other than letters and digits': [('http://example.org/a-b', 'http://example.org/a_b'), ('http://example.org/a/b', 'http://example.org/a?b'), ('http://example.org/a', 'http://example.org:a')],
         'only in case': [('http://example.org/a', 'http://example.org/A')]}


def rule_C13(prog, rep, tier):
    R = rep.rule('history', """Histories of setting, clearing and reading for up to three sources, with one object or a new one for each step, on no file, an empty one, and ones
        with other sections and entries: reading gives the last recorded time of that source, nothing if none or cleared, and everything else is kept.""")
    R2 = rep.rule('crash', """Along every history the state file is never opened for writing, removed, moved away or copied over, only replaced by a closed complete file of its
        directory; a failure to write leaves it as it was.""")
    site = 'resync.client_state.ClientState'

    def judge_run(S, name, group, rule, content, steps, keep, want):
        st = S.state()
        v = {}
        for x in 'tuv':
            v[x] = S.value(st, x, 'float')
        def val(x):
            return v[x] if isinstance(x, str) and x in v else x
        rets, raises = S.call('run', [content, [tuple(val(x) for x in s) for s in steps], keep], st)
        return judge(rep, S, rule, site, name, group, rets, raises, tuple(val(w) if not isinstance(w, (dict, tuple)) else w for w in want))

    FILESET = {'no file': None, 'an empty file': {}, 'another section': {'other': {'a': 'b'}}, 'an empty section': {'incremental': {}},
               'another entry': {'incremental': {'other_entry': '12.5'}, 'other': {'a': 'b'}}}

    def kept(content):
        """The final file has at least what it had before."""
        def fn(S, st, got):
            if not isinstance(got, dict):
                return content is None and got == C(None) or content == {} and got == C(None)
            for s, d in (content or {}).items():
                x = got.get(C(s))
                if not isinstance(x, dict):
                    return False
                for k, w in d.items():
                    if x.get(C(k)) != C(w):
                        return False
            return True
        return Pred('a file that keeps %r' % (content,), fn)

    def histories():
        a, b, c = SITES[0], SITES[1], SITES[2]
        yield 'set and read', [('set', a, 't'), ('get', a)]
        yield 'set twice', [('set', a, 't'), ('set', a, 'u'), ('get', a)]
        yield 'nothing recorded', [('get', a)]
        yield 'set, clear', [('set', a, 't'), ('clear', a), ('get', a)]
        yield 'clear unrecorded', [('clear', a), ('get', a)]
        yield 'clear, set', [('clear', a), ('set', a, 't'), ('get', a)]
        yield 'nothing as time', [('set', a, 't'), ('set', a, None), ('get', a)]
        for t in (0.0, 0, 1.5, 1e-7, 1600000000, 1600000000.123456, 1600000000.1234567, -1.25, 1e10, 2):
            yield 'time %r' % t, [('set', a, t), ('get', a)]
        for x, y in itertools.permutations(SITES, 2):
            yield 'two sources', [('set', x, 't'), ('set', y, 'u'), ('get', x), ('get', y), ('clear', x), ('get', x), ('get', y)]
        for x in SITES[:3]:
            for y in SITES[:3]:
                for z in SITES[:3]:
                    for ops in itertools.product(('t', None), repeat=3):
                        yield 'three steps', [('set', s, o and w) for s, o, w in zip((x, y, z), ops, 'tuv')] + [('get', s) for s in SITES[:3]]

    def model(steps):
        d, out = {}, []
        for s in steps:
            if s[0] == 'set' and s[2] is not None:
                d[s[1]] = s[2]
            elif s[0] in ('set', 'clear'):
                d.pop(s[1], None)
            elif s[0] == 'get':
                x = d.get(s[1])
                out.append(float(x) if isinstance(x, int) and not isinstance(x, bool) else x)
        return out

    def go(fname):
        S = Driver(prog, STATE, 'STATE', budget=4000000, subst=(FILES, CONFIG))
        n = 0
        for what, steps in histories():
            if fname != 'no file' and what in ('two sources', 'three steps') and steps[0][1] != SITES[0]:
                continue
            for keep in (False, True):
                n += judge_run(S, '%s, %s%s' % (what, fname, ', one object' if keep else ''), '%s, %s' % (what if what[:5] != 'time ' else 'times', fname), R, FILESET[fname],
                               steps + [('file',)], keep, model(steps) + [kept(FILESET[fname])])
                n += judge_run(S, '%s, %s%s' % (what, fname, ', one object' if keep else ''), '%s, %s' % (what if what[:5] != 'time ' else 'times', fname), R2, FILESET[fname],
                               [s for s in steps if s[0] != 'get'] + [('broken',)], keep, [()])
        for steps in ([('set', SITES[0], 't'), ('fails',), ('set', SITES[0], 'u'), ('get', SITES[0])], [('set', SITES[0], 't'), ('fails',), ('set', SITES[1], 'u'), ('get', SITES[0])]):
            n += judge_run(S, 'failure to write, %s' % fname, 'failure to write, %s' % fname, R2, FILESET[fname], steps + [('file',)], False, ['failed', 't', kept(FILESET[fname])])
        rep.absorb(S.ip, fname, n)
    for fname in FILESET:
        scenario(rep, fname, go, fname)

    def go():
        S = Driver(prog, STATE, 'STATE', budget=4000000, subst=(FILES, CONFIG))
        n = 0
        for what in ALIKE:
            for x, y in ALIKE[what]:
                n += judge_run(S, '%s and %s' % (x, y), 'sources that differ %s' % what, R, None, [('set', x, 't'), ('set', y, 'u'), ('get', x), ('get', y)], False, ['t', 'u'])
        rep.absorb(S.ip, 'alike', n)
    scenario(rep, 'sources that look alike', go)
