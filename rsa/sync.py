"""Symbolic synchronization client: the entry points of resync.client.Client run
on unknown lists, with the library's own list reading, comparison, mapping,
authority, state and web access replaced by their specifications."""
import ast

from .state import C, NONE, TRUE, FALSE, State, mentions, rename
from .interp import Interp
from . import effects

SRC = ('p', 'SRC')              # resources of the source list
CHG = ('p', 'CHG')              # entries of the change list as read
CHGT = ('p', 'CHG_SINCE')       # after pruning by time
CHGP = ('p', 'CHG_APPLY')       # after pruning by time and duplicates
CHGD = ('p', 'CHG_NODUPE')      # after pruning duplicates only
DST = ('p', 'DST')              # local scan
SAME, UPDATED, DELETED, CREATED = ('p', 'SAME'), ('p', 'UPDATED'), ('p', 'DELETED'), ('p', 'CREATED')
UPDATED_DST = ('p', 'UPDATED_DST')
CAPS = ('p', 'CAPS')
LISTS = (SRC, CHG, CHGT, CHGP, CHGD, DST, SAME, UPDATED, DELETED, CREATED, UPDATED_DST, CAPS)
FROM_SRC = (SRC, UPDATED, CREATED)
MAPPER = ('p', 'MAPPER')
MAPPINGS = ('p', 'MAPPINGS')
SITEMAP = ('p', 'sitemap_name')
SET_STATE = 'resync.client_state.ClientState.set_state'

DOWNLOAD_OPS = frozenset(('get', 'read', 'copy', 'write', 'open', 'rename', 'mkdir'))
OPS = DOWNLOAD_OPS | frozenset(('delete', 'utime', 'chmod', 'create', 'state', 'hash', 'scan', 'map', 'prune'))

CLIENT = 'resync.client.Client'


def aget(st, k, d=None):
    for a, v in st.auto or ():
        if a == k:
            return v
    return d


def aput(st, k, v):
    d = dict(st.auto or ())
    d[k] = v
    st.auto = tuple(sorted(d.items(), key=lambda p: p[0]))


def adel(st, k):
    st.auto = tuple(p for p in (st.auto or ()) if p[0] != k)


def elem_src(t):
    """Source list of an element term or None."""
    if t[0] == 'elem':
        return t[1]
    return None


def uri_of(t):
    """Element whose uri the term is, or None."""
    if t[0] == 'attr' and t[2] == 'uri':
        return t[1]
    return None


class Sync(object):

    def __init__(self, prog, on, **opt):
        self.prog = prog
        self.on = on               # callback(ip, st, kind, info, node)
        self.opt = opt
        self.on_fail = opt.get('on_fail')
        self.ip = ip = Interp(prog, budget=opt.get('budget', 600000))
        ip.type_hook = self.type_of
        ip.attr_hook = self.attr
        ip.types[MAPPER] = 'resync.mapper.Mapper'
        ip.types[DST] = 'resync.resource_list.ResourceList'
        ip.types[SITEMAP] = 'str'
        effects.install(ip, self.effect, fail=self.failing)
        I = ip.intercepts
        for q in ('*.read', '*.parse'):
            I[q] = self.h_read
        I['*.__iter__'] = self.h_iter
        I['resync.mapper.Mapper'] = self.h_mapper
        M = 'resync.mapper.Mapper.'
        I[M + '__len__'] = lambda ip, st, fi, s, a, k, n: [(st, ('len', MAPPINGS))] if s == MAPPER else None
        I[M + 'unsafe'] = self.h_unsafe
        I[M + 'src_to_dst'] = self.h_src_to_dst
        for m in ('dst_to_src', 'default_src_uri', '__repr__', '__str__'):
            I[M + m] = self.h_mapstr(m)
        I['resync.resource_list_builder.ResourceListBuilder.from_disk'] = self.h_from_disk
        I['resync.resource_list.ResourceList.compare'] = self.h_compare
        I['resync.change_list.ChangeList.prune_updates_before'] = self.h_prune_before
        I['*.prune_dupes'] = self.h_prune_dupes
        I['resync.client_state.ClientState.set_state'] = self.h_set_state
        I['resync.client_state.ClientState.get_state'] = self.h_get_state
        I['resync.url_or_file_open.url_or_file_open'] = self.h_get
        I['resync.url_authority.UrlAuthority.set_master'] = self.h_set_master
        I['resync.url_authority.UrlAuthority.has_authority_over'] = self.h_auth
        I['resync.resource.Resource'] = self.h_resource
        I['resync.resource.Resource.__repr__'] = self.h_str
        I['resync.resource.Resource.__str__'] = self.h_str
        I['resync.hashes.Hashes'] = self.h_hashes
        I['resync.w3c_datetime.str_to_datetime'] = self.h_str_to_dt
        I['resync.w3c_datetime.datetime_to_str'] = self.h_str
        ip.inline_props = set()
        ip.types[('p', 'RESOURCE')] = 'resync.resource.Resource'

    # -- types

    def type_of(self, v):
        if v[0] == 'elem' and v[1] in LISTS:
            return 'resync.resource.Resource'
        if v[0] == 'attr' and v[2] == 'uri':
            return 'str'
        if v[0] == 'call' and v[1] in ('src_to_dst', 'datetime_to_str', 'str', 'default_src_uri', 'dst_to_src'):
            return 'str'
        return None

    def attr(self, ip, st, v, name, node):
        if name == 'resources' and v in LISTS:
            return [(st, v)]
        return None

    # -- specifications of the parts

    def effect(self, ip, st, kind, info, node):
        self.on(ip, st, kind, info, node)

    def failing(self, ip, st, op, node):
        """Ways in which operation op can fail."""
        ops = self.opt.get('fails', OPS)
        if op not in ops:
            return
        excs = [('builtins.OSError', False)]
        if op in ('get', 'read', 'copy'):
            excs = [('builtins.TimeoutError', True), ('urllib.error.URLError', False), ('builtins.ConnectionResetError', True),
                    ('http.client.HTTPException', False)]
        elif op == 'mkdir':
            excs = [('builtins.OSError', False), ('distutils.errors.DistutilsFileError', True)]
        for cls, exact in excs:
            s = st.copy()
            if self.on_fail is not None:
                self.on_fail(s, op, 'timeout' if cls == 'builtins.TimeoutError' else 'other')
            ip.throw(s, cls, (C(op + ' failed'),), node, exact=exact)

    def is_list(self, st, v):
        o = self.ip.obj(st, v)
        if o is None or o.kind != 'inst' or not o.cls:
            return None
        ci = self.prog.classes.get(o.cls)
        if ci is None or not ci.is_subclass('resync.resource_container.ResourceContainer'):
            return None
        return ci

    def listsym(self, ci):
        if ci.is_subclass('resync.resource_list.ResourceList'):
            return SRC
        if ci.is_subclass('resync.change_list.ChangeList'):
            return CHG
        return CAPS

    def h_read(self, ip, st, fi, selfv, args, kws, node):
        ci = self.is_list(st, selfv) if selfv is not None else None
        if ci is None:
            return None
        uri = args[0] if args else kws.get('uri', NONE)
        sym = self.listsym(ci)
        self.on(ip, st, 'read', (sym, uri), node)
        if sym in self.opt.get('read_fails', (SRC, CHG, CAPS)):
            for exc, exact in (('builtins.OSError', False), ('resync.sitemap.SitemapParseError', True),
                               ('resync.list_base_with_index.ListBaseIndexError', True), ('builtins.Exception', False)):
                if exc.startswith('builtins') or exc in self.prog.classes:
                    ip.throw(st.copy(), exc, (C('cannot read'),), node, exact)
        if sym in self.opt.get('read_never', ()):
            return []
        o = ip.obj(st, selfv)
        st.heap[selfv[1]] = o.setattr('resources', sym).setattr('md', ('p', 'MD'))
        return [(st, NONE)]

    def h_iter(self, ip, st, fi, selfv, args, kws, node):
        if self.is_list(st, selfv) is not None:
            o = ip.obj(st, selfv)
            r = o.attrs.get('resources')
            if r in LISTS:
                return [(st, ('call', 'builtins.iter', (r,), ()))]
        if selfv in LISTS:
            return [(st, ('call', 'builtins.iter', (selfv,), ()))]
        return None

    def h_mapper(self, ip, st, ci, selfv, args, kws, node):
        m = args[0] if args else kws.get('mappings', NONE)
        if m == ('p', 'mappings'):
            st.learn(('truth', MAPPINGS), True)
            return [(st, MAPPER)]
        return None

    def h_unsafe(self, ip, st, fi, selfv, args, kws, node):
        if selfv != MAPPER:
            return None
        u = self.opt.get('unsafe', FALSE)
        self.on(ip, st, 'unsafe?', (u,), node)
        return [(st, u)]

    def h_src_to_dst(self, ip, st, fi, selfv, args, kws, node):
        if selfv != MAPPER:
            return None
        if 'resync.mapper.MapperError' in self.prog.classes and 'map' in self.opt.get('fails', OPS):
            ip.throw(st.copy(), 'resync.mapper.MapperError', (C('no mapping'),), node)
        a = args[0] if args else list(kws.values())[0]
        return [(st, ('call', 'src_to_dst', (a,), ()))]

    def h_mapstr(self, name):
        def h(ip, st, fi, selfv, args, kws, node):
            if selfv != MAPPER:
                return None
            return [(st, ('call', name if name[0] != '_' else 'str', tuple(args), ()))]
        return h

    def h_from_disk(self, ip, st, fi, selfv, args, kws, node):
        if 'scan' in self.opt.get('fails', OPS):
            ip.throw(st.copy(), 'builtins.OSError', (), node, exact=False)
        self.on(ip, st, 'scan', (), node)
        return [(st, DST)]

    def h_compare(self, ip, st, fi, selfv, args, kws, node):
        a = args[0] if args else kws.get('src', NONE)
        o = ip.obj(st, a)
        ra = o.attrs.get('resources') if o is not None else a
        s = ip.obj(st, selfv)
        rs = s.attrs.get('resources') if s is not None else selfv
        self.on(ip, st, 'compare', (rs, ra), node)
        if rs == SRC and ra == DST:
            return [(st, ('tup', (SAME, UPDATED_DST, CREATED, DELETED)))]
        return [(st, ('tup', (SAME, UPDATED, DELETED, CREATED)))]

    def res(self, ip, st, selfv):
        o = ip.obj(st, selfv)
        return o.attrs.get('resources') if o is not None else selfv

    def h_prune_before(self, ip, st, fi, selfv, args, kws, node):
        r = self.res(ip, st, selfv)
        if r not in LISTS:
            return None
        ts = args[0] if args else kws.get('timestamp', NONE)
        sv = args[1] if len(args) > 1 else kws.get('spec_version', C('1.1'))
        self.on(ip, st, 'prune_before', (r, ts, sv), node)
        if 'prune' in self.opt.get('fails', OPS):
            ip.throw(st.copy(), 'builtins.Exception', (C('no time'),), node)
        n = {CHG: CHGT, CHGD: CHGP}.get(r, r)
        st.heap[selfv[1]] = ip.obj(st, selfv).setattr('resources', n)
        return [(st, ('int', 0))]

    def h_prune_dupes(self, ip, st, fi, selfv, args, kws, node):
        r = self.res(ip, st, selfv)
        if r not in LISTS:
            return None
        self.on(ip, st, 'prune_dupes', (r,), node)
        n = {CHG: CHGD, CHGT: CHGP}.get(r, r)
        st.heap[selfv[1]] = ip.obj(st, selfv).setattr('resources', n)
        return [(st, ('int', 0))]

    def h_set_state(self, ip, st, fi, selfv, args, kws, node):
        site = args[0] if args else kws.get('site', NONE)
        ts = args[1] if len(args) > 1 else kws.get('timestamp', NONE)
        if 'state' in self.opt.get('fails', OPS):
            ip.throw(st.copy(), 'builtins.OSError', (C('state'),), node, exact=False)
        self.on(ip, st, 'set_state', (site, ts), node)
        return [(st, NONE)]

    def h_get_state(self, ip, st, fi, selfv, args, kws, node):
        site = args[0] if args else kws.get('site', NONE)
        self.on(ip, st, 'get_state', (site,), node)
        v = ('call', 'get_state', (site,), ())
        if 'state' in self.opt:
            v = self.opt['state']
        return [(st, v)]

    def h_get(self, ip, st, fi, selfv, args, kws, node):
        uri = args[0] if args else kws.get('uri', NONE)
        env = ip.bind(fi, None, args, kws, st, node) or {}
        self.on(ip, st, 'get', (uri, env.get('timeout', NONE), env.get('method', NONE)), node)
        self.failing(ip, st, 'get', node)
        return [(st, ('call', 'GET', (uri,), ()))]

    def h_set_master(self, ip, st, fi, selfv, args, kws, node):
        url = args[0] if args else kws.get('url', NONE)
        ip.set_attr(st, selfv, '$master', url, node, raw=True)
        return [(st, NONE)]

    def h_auth(self, ip, st, fi, selfv, args, kws, node):
        url = args[0] if args else kws.get('url', NONE)
        o = ip.obj(st, selfv)
        master = o.attrs.get('$master', o.attrs.get('url', NONE)) if o is not None else ('fresh', 'authority', ())
        strict = o.attrs.get('strict', FALSE) if o is not None else NONE
        self.on(ip, st, 'auth', (master, strict, url), node)
        f = self.opt.get('auth')
        v = f(ip, st, master, strict, url) if f else None
        if v is None:
            v = ('call', 'has_authority', (master, strict, url), ())
        return [(st, v)]

    def h_resource(self, ip, st, ci, selfv, args, kws, node):
        return [(st, ('p', 'RESOURCE'))]

    def h_str(self, ip, st, fi, selfv, args, kws, node):
        return [(st, ('call', 'str', tuple(args[:1]), ()))]

    def h_hashes(self, ip, st, ci, selfv, args, kws, node):
        h = args[0] if args else kws.get('hashes', NONE)
        f = args[1] if len(args) > 1 else kws.get('file', NONE)
        ex = ip.exact_items(st, h)
        if ex is not None:
            h = ('tup', tuple(ex))
        self.on(ip, st, 'hash', (h, f), node)
        if 'hash' in self.opt.get('fails', OPS):
            ip.throw(st.copy(), 'builtins.OSError', (C('hash'),), node, exact=False)
        return [(st, ('call', 'Hashes', (h, f), ()))]

    def h_str_to_dt(self, ip, st, fi, selfv, args, kws, node):
        s = args[0] if args else kws.get('s', NONE)
        if s == NONE:
            return [(st, NONE)]
        if self.opt.get('bad_datetime', True) is not False:
            ip.throw(st.copy(), 'builtins.ValueError', (C('bad datetime'),), node)
        if self.opt.get('bad_datetime') == 'always':
            return []
        t = ('call', 'str_to_datetime', (s,), ())
        st.learn(('isnone', t), False)
        return [(st, t)]

    # -- running

    def start(self):
        """State with a configured client; yields [(st, client)]."""
        opt = self.opt
        ip = self.ip
        st = State()
        st.auto = ()
        ci = self.prog.cls(CLIENT)
        kws = {'dryrun': opt.get('dryrun', FALSE)}
        if opt.get('hashes') is not None:
            kws['hashes'] = opt['hashes']
        for k in ('spec_version', 'verbose'):
            if k in opt:
                kws[k] = opt[k]
        rets, raises = ip.construct(ci, [], kws, st)
        out = []
        for s, c in rets:
            s.env = {'$client': c}
            cur = [s]
            if opt.get('mapper', 'sym') == 'sym':
                nxt = []
                for x in cur:
                    r, _ = ip.run(self.prog.method(CLIENT, 'set_mappings'), x.env['$client'], [('p', 'mappings')], {}, x)
                    nxt += [y for y, _ in r]
                cur = nxt
            attrs = {'noauth': opt.get('noauth', TRUE), 'strictauth': opt.get('strictauth', ('p', 'strictauth')),
                     'ignore_failures': opt.get('ignore_failures', ('p', 'ignore_failures')),
                     'sitemap_name': opt.get('sitemap_name', SITEMAP), 'tries': opt.get('tries', C(2)),
                     'timeout': opt.get('timeout', ('p', 'timeout')), 'max_sitemap_entries': opt.get('max', NONE)}
            if 'capability_list_uri' in opt:
                attrs['capability_list_uri'] = opt['capability_list_uri']
            for k, v in attrs.items():
                nxt = []
                for x in cur:
                    nxt += ip.set_attr(x, x.env['$client'], k, v, ci.node)
                cur = nxt
            for x in cur:
                self.stale(x, ci, attrs)
                x.learn(('isnone', SITEMAP), False)
                x.learn(('truth', ('p', 'change_list_uri')), True)
                x.learn(('truth', ('p', 'from_datetime')), True)
                for a, val in opt.get('facts', ()):
                    x.learn(a, val)
                for m in opt.get('nonempty', ()):
                    x.learn(('truth', m), True)
                for m in opt.get('empty', ()):
                    x.learn(('truth', m), False)
                for k, v in opt.get('auto', {}).items():
                    aput(x, k, v)
                out.append(x)
        return out

    def stale(self, st, ci, config):
        """A client object may be used for several synchronizations: attributes
        its operations store hold an unknown value from an earlier one."""
        c = st.env['$client']
        o = self.ip.obj(st, c)
        for k in sorted(self.stored(ci)):
            v = o.attrs.get(k)
            if k not in config and (v is None or v[0] == 'c' and v[1] in ('int', 'float')):
                o = o.setattr(k, ('p', 'stale:' + k))
        st.heap[c[1]] = o

    def stored(self, ci):
        """Attributes stored by methods other than the constructor and setters."""
        out = set()
        for name, fi in ci.methods.items():
            if name == '__init__' or name.startswith('set_'):
                continue
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    out.add(n.attr)
        return out

    def call(self, method, **kws):
        """Run a client method from all start states: (returns, raises)."""
        fi = self.prog.method(CLIENT, method)
        rets, raises = [], []
        for s in self.start():
            r, e = self.ip.run(fi, s.env['$client'], [], kws, s)
            rets += r
            raises += e
        return rets, raises
