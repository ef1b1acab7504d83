"""C30 users and passwords, C31 authentication decisions, C32 request dispatch."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..maps import Maps, ent, key_loc, val_loc, FIRST, SECOND
from ..report import where
from .httpmsg import Scen, params, set_arg, evs
from .routing import RH, verdict

this = ('o', 'this')
AUTH, BASIC, COOKIE = 'pion::http::auth::', 'pion::http::basic_auth::', 'pion::http::cookie_auth::'


def init(l, tag):
    t = ('init', l); TAG[t] = tag
    return t


def app(*a, tag='str'):
    t = ('app',) + a; TAG[t] = tag
    return t


def meth(prog, name, pred=lambda f: True):
    fs = [f for f in prog.by_name.get(name, []) if 'blocks' in f and pred(f)]
    if not fs: raise AnalysisError("no %s" % name)
    return fs[0]


# ------------------------------------------------------------------ which resources are protected
class SetRH(RH):
    sets = True
    LBL = 'set'

    @staticmethod
    def kl(i): return ent(i)

    def __init__(self, f, R):
        RH.__init__(self, '', R)
        self.loc = params(f)[0][1]

    def is_map(self, obj): return 'map' if obj == self.loc else None


def cover(prog, R):
    f = meth(prog, AUTH + 'find_resource')
    ps = params(f)
    RS = init(ps[1][1], 'str')
    total = 0
    for n in (0, 1, 2, 3):
        H = SetRH(f, RS)
        E = Engine(prog, H)

        def setup(E, S, fr):
            for i in range(1, n + 1): S.mem[ent(i)] = init(ent(i), 'str')
            H.put(S, 'map', range(1, n + 1), False, ())
            S.mon['nextent'] = n + 1
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        if not ex: raise AnalysisError("find_resource has no exit")
        for kind, s, v in ex:
            if kind not in ('ret', 'throw'): continue
            total += 1
            def ob(k, ok, msg): R.ob("find_resource:" + k, ok, where(f), msg, dict(entries=n, path=s.path()))
            ob('returns', kind == 'ret', "throws")
            if kind != 'ret': continue
            for e in evs(s):
                if e[0] == 'bad': ob('iterators', False, e[1])
            t = v if isinstance(v, int) else E.truth_of(s, v)
            ob('decided', t is not None, "the answer is not a decision about the entries")
            vs = {i: verdict(E, s, RS, i, ent) for i in range(1, n + 1)}
            if t: ob('covers', 1 in vs.values(), "a resource counts as listed although no entry need cover it (prefix that ends at its end or before '/')")
            elif t is not None: ob('no match', all(x == 0 for x in vs.values()), "a resource counts as not listed although an entry may cover it")
    return total


class AU(Maps, Scen):
    """requests are opaque: accessors answer terms; virtual collaborators are recorded"""
    max_states = 6000
    unroll = 30
    MAPF = None
    SETF = {}

    def __init__(self, opaque=()):
        Scen.__init__(self)
        self.opaque = set(opaque)

    def is_map(self, obj):
        if obj[0] == 'f' and isinstance(obj[2], str):
            for m, fld in self.SETF.items():
                if obj[2].endswith('::' + fld): return m
            if self.MAPF and obj[2].endswith('::' + self.MAPF) and obj[1] == this: return 'cache'
        return None

    TIMES = ('boost::posix_time::', 'boost::date_time::')

    def time_call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        tm = cls.startswith(self.TIMES)
        pts = ' '.join(n.get('pt') or [])
        if info.get('ctor') and tm:
            c = strip_targs(cls)
            if n.get('copy') or (len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'L'):
                S.mem[obj] = sc(a[0]); return [(S, None)]
            if c.endswith('::seconds') and a: S.mem[obj] = sc(a[0]); return [(S, None)]
            if c.endswith('::minutes') and a: S.mem[obj] = E.mul(S, sc(a[0]), 60) if not isinstance(sc(a[0]), int) else sc(a[0]) * 60; return [(S, None)]
            if c.endswith('::hours') and a and isinstance(sc(a[0]), int): S.mem[obj] = sc(a[0]) * 3600; return [(S, None)]
            if c.endswith('::time_duration') and len(a) >= 3 and all(isinstance(sc(x), int) for x in a[:3]):
                S.mem[obj] = sc(a[0]) * 3600 + sc(a[1]) * 60 + sc(a[2]); return [(S, None)]
            return None
        if nm in ('universal_time', 'local_time') and tm:
            t = app('clock', nm, tag=('i', 64, True))
            S.setint(t, ((1 << 20, 1 << 40),))
            return [(S, E.tmp(S, fr, nid, t))]
        ops = ('operator>', 'operator<', 'operator>=', 'operator<=', 'operator==', 'operator!=', 'operator+', 'operator-')
        if nm in ops and ('posix_time' in pts or 'date_time' in pts or tm):
            x = [sc(v) for v in (([('L', obj)] if obj is not None else []) + list(a))]
            if len(x) == 2 and all(isinstance(v, int) or isinstance(TAG.get(v), tuple) or v[0] == 'lin' for v in x):
                if nm in ('operator+', 'operator-'):
                    t = (add if nm == 'operator+' else sub)(x[0], x[1])
                    if isinstance(t, tuple): TAG[t] = ('i', 64, True)
                    return [(S, E.tmp(S, fr, nid, t))]
                for v in x:
                    if isinstance(v, tuple): TAG[v] = ('i', 64, True)
                return [(S, E.mkcmp(S, nm[8:], x[0], x[1]))]
        if nm in ('operator=',) and tm and len(a) == 1:
            E.write(S, fr, obj, sc(a[0]), n); return [(S, ('L', obj))]
        if nm in ('total_seconds', 'ticks') and tm: return [(S, E.content(S, obj))] if nm == 'total_seconds' else None
        if nm in ('is_negative',) and tm: return [(S, E.mkcmp(S, '<', E.content(S, obj), 0))]
        return None

    def inserted(self, E, S, fr, m, i, n): S.mon['added'] = S.mon.get('added', ()) + ((m, i),)
    def erased(self, E, S, fr, m, i, n): S.mon['gone'] = S.mon.get('gone', ()) + ((m, i),)

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else (('str', v[1].rstrip('\0')) if isinstance(v, tuple) and v and v[0] == 'strp' else v)
        T = lambda s, v: E.tmp(s, fr, nid, v)
        r = self.time_call(E, S, fr, n, info)
        if r is not None: return r
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        if nm in ('get_header', 'get_cookie', 'get_query', 'get_resource', 'get_original_resource', 'get_method') and obj is not None and cls.startswith('pion::http::'):
            return [(S, T(S, app(nm, *[sc(x) for x in a])))]
        if nm == 'strip_trailing_slash' and 'strip' in self.opaque: return [(S, T(S, app('strip', sc(a[0]))))]
        if nm == 'empty' and cls.startswith('pion::user_manager'):
            return [(S, E.mkcmp(S, '!=', self.nousers(S), 0))]
        if nm == 'find_resource' and 'find' in self.opaque:
            m = self.is_map(a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'L' else None
            self.ev(S, 'find', m, sc(a[1]))
            return [(S, int(self.hits.get(m, 0)))]
        if nm == 'get_user' and cls.startswith('pion::user_manager'):
            s2 = S.copy()
            self.ev(S, 'get_user', 1, *[sc(x) for x in a]); self.ev(s2, 'get_user', 0, *[sc(x) for x in a])
            p = app('account', *[sc(x) for x in a], tag='p')
            S.setint(p, ((1, 1 << 47),))
            return [(S, T(S, p)), (s2, T(s2, 0))]
        if nm == 'set_user' and cls.startswith('pion::http::'):
            self.ev(S, 'set_user', sc(a[0])); return [(S, 0)]
        if nm in ('handle_unauthorized', 'handle_redirection', 'handle_ok') and nm in self.opaque:
            self.ev(S, nm, *[sc(x) for x in a[2:]]); return [(S, 0)]
        if nm == 'need_authentication' and nm in self.opaque: return [(S, self.need)]
        if nm == 'process_login' and nm in self.opaque: return [(S, self.login)]
        if nm == 'parse_authorization' and nm in self.opaque:
            s2 = S.copy()
            E.write(S, fr, a[1][1], app('cred', sc(a[0])), n)
            S.mon['cred'] = sc(a[0])
            return [(S, 1), (s2, 0)]
        if nm == 'parse_credentials' and nm in self.opaque:
            s2 = S.copy(); self.ev(s2, 'malformed')
            c = sc(a[0])
            E.write(S, fr, a[1][1], app('user', c), n); E.write(S, fr, a[2][1], app('pass', c), n)
            return [(S, 1), (s2, 0)]
        return Scen.call(self, E, S, fr, n, info)

    def nousers(self, S): return self.none


def logs(E): pass


def need(prog, R):
    """need_authentication = users exist and the resource is restricted and not permitted"""
    f = meth(prog, AUTH + 'need_authentication')
    total = 0
    for none in (0, 1):
        for rn, rh in ((0, 0), (1, 0), (1, 1), (2, 1)):
            for wn, wh in ((0, 0), (1, 0), (1, 1), (2, 1)):
                H = AU(('strip', 'find'))
                H.SETF = {'restrict': 'm_restrict_list', 'white': 'm_white_list'}
                H.sets = True
                H.none, H.hits = none, {'restrict': rh, 'white': wh}
                E = Engine(prog, H)

                def setup(E, S, fr):
                    H.put(S, 'restrict', range(1, rn + 1), False, ())
                    H.put(S, 'white', range(11, 11 + wn), False, ())
                    S.mon['nextent'] = 30
                    S.mem[('f', this, AUTH + 'm_user_manager')] = app('manager', tag='p')
                    S.setint(app('manager', tag='p'), ((1, 1 << 47),))
                fr, ex = E.entry(f, this=this, setup=setup)
                R.engine(E)
                want = int(not none and rh and not wh)
                ex = [x for x in ex if x[0] in ('ret', 'throw')]
                if not ex: raise AnalysisError("need_authentication has no exit")
                for kind, s, v in ex:
                    total += 1
                    def ob(k, ok, msg): R.ob("need_authentication:" + k, ok, where(f), msg, dict(no_users=none, restricted=rh, permitted=wh, path=s.path()))
                    ob('returns', kind == 'ret', "throws")
                    if kind != 'ret': continue
                    t = v if isinstance(v, int) else E.truth_of(s, v)
                    ob('law', t == want, "authentication is required exactly when users exist, the resource is restricted and it is not permitted")
                    for e in evs(s):
                        if e[0] == 'find':
                            ob('resource', e[2] == app('strip', app('get_resource')), "the lists are asked about something other than the resource without its trailing slash")
                            ob('lists', e[1] is not None, "asks an unknown list")
    return total


def lists(prog, R):
    total = 0
    for fn, m in (('add_restrict', 'restrict'), ('add_permit', 'white')):
        f = meth(prog, AUTH + fn)
        RS = init(params(f)[0][1], 'str')
        for n in (0, 1):
            H = AU(('strip',))
            H.SETF = {'restrict': 'm_restrict_list', 'white': 'm_white_list'}
            H.sets = True
            E = Engine(prog, H)

            def setup(E, S, fr):
                for j, k in (('restrict', 1), ('white', 11)):
                    for i in range(k, k + n): S.mem[ent(i)] = init(ent(i), 'str')
                    H.put(S, j, range(k, k + n), False, ())
                S.mon['nextent'] = 30
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                def ob(k, ok, msg): R.ob("%s:%s" % (fn, k), ok, where(f), msg, dict(entries=n, path=s.path()))
                ob('returns', kind == 'ret', "throws")
                if kind != 'ret': continue
                ob('nothing lost', not s.mon.get('gone'), "removes an entry")
                want = app('strip', RS)
                have = [E.content(s, ent(i)) for i in H.entries(s, m)[0]]
                al = [k for i in H.entries(s, m)[0] for k in s.mon.get(('alias', i), ())]
                ob('listed', want in have or want in al, "does not list the resource without its trailing slash")
                ob('only there', all(x[0] == m for x in s.mon.get('added', ())) and len(s.mon.get('added', ())) <= 1, "lists something else as well")
    return total


NOW = ('app', 'clock', 'universal_time')


def decide(prog, R, which):
    """handle_request of one authenticator"""
    C = BASIC if which == 'basic' else COOKIE
    f = meth(prog, C + 'handle_request')
    exp = 300 if which == 'basic' else 3600
    total = 0
    CL = ('f', this, C + 'm_cache_cleanup_time')
    for need_, login, n in ((0, 0, 1), (1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 1, 1), (0, 1, 1)):
        if which == 'basic' and login: continue
        H = AU(('handle_unauthorized', 'need_authentication', 'process_login', 'parse_authorization', 'parse_credentials'))
        H.MAPF = 'm_user_cache'
        H.need, H.login = need_, login
        E = Engine(prog, H)

        def setup(E, S, fr):
            for i in H.populate(S, 'cache', n):
                t = init(('time', i), ('i', 64, True)); S.setint(t, ((1 << 20, 1 << 40),))
                u = init(('user', i), 'p'); S.setint(u, ((1, 1 << 47),))
                S.mem[('f', val_loc(i), FIRST)] = t
                S.mem[('f', val_loc(i), SECOND)] = u
            t = init(CL, ('i', 64, True)); S.setint(t, ((1 << 20, 1 << 40),))
            S.mem[CL] = t
            S.mem[('f', this, C + 'm_redirect')] = init(('redirect',), 'str')
            for g, v in ((C + 'CACHE_EXPIRATION', exp),):
                if 'int' not in (prog.globals.get(g) or {}): S.mem[('g', g)] = v
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("%s::handle_request has no exit" % which)
        for kind, s, v in ex:
            total += 1
            def ob(k, ok, msg): R.ob("%s:%s" % (which, k), ok, where(f), msg, dict(required=need_, cached=n, login=login, path=s.path()))
            ob('returns', kind == 'ret', "throws")
            if kind != 'ret': continue
            t = v if isinstance(v, int) else E.truth_of(s, v)
            ob('decided', t is not None, "the answer is not decided")
            l = evs(s)
            for e in l:
                if e[0] == 'bad': ob('iterators', False, e[1])
            su = [e for e in l if e[0] == 'set_user']
            hu = [e for e in l if e[0] == 'handle_unauthorized']
            added = [i for m, i in s.mon.get('added', ())]
            if login:
                ob('login handled', t == 0 and not su and not hu and not added, "a request the login service answered must not be processed further")
                continue
            if not need_:
                ob('exempt', t == 1 and not su and not hu, "a request that needs no authentication must pass untouched")
                continue
            # which entry did the presented credentials select?
            key = app('cred', app('get_header', ('str', 'Authorization'))) if which == 'basic' else app('get_cookie', ('str', 'pion_session_id'))
            hit = [i for i in range(1, n + 1) if key in s.mon.get(('alias', i), ())]
            if any(k != key for i in range(1, n + 1) for k in s.mon.get(('alias', i), ())):
                ob('looked up', False, "looks the session up under something other than the presented credentials")
            gu = [e for e in l if e[0] == 'get_user' and e[1]]
            allowed = [init(('user', i), 'p') for i in hit] + [app('account', app('user', key), app('pass', key), tag='p') for e in gu if e[2:] == (app('user', key), app('pass', key))]
            redir = init(('redirect',), 'str')
            page = which == 'cookie' and redirpage(E, s, redir)
            if t:
                if page and not su:
                    ob('login page', not hu, "the login page must pass untouched"); continue
                ob('confirmed', len(su) == 1 and su[0][1] in allowed, "lets a request through, or attributes it to a user, without that user's session or password having been confirmed")
                ob('no denial', not hu, "answers 401 to a request it lets through")
                for i in hit:
                    if ('cache', i) not in s.mon.get('gone', ()):
                        ob('refreshed', E.content(s, ('f', val_loc(i), FIRST)) == NOW, "using a session does not renew it")
            elif t is not None:
                ob('denied once', len(hu) == 1 and not su, "a refused request must be answered by handle_unauthorized exactly once, with no user set")
                ob('not refused', not hit and not any(app('account', *e[2:], tag='p') in allowed for e in gu), "refuses confirmed credentials")
                ob('not cached', not added, "remembers credentials it refused")
            for i in added:
                ob('cached session', E.content(s, key_loc(i)) == key and E.content(s, ('f', val_loc(i), SECOND)) in allowed and E.content(s, ('f', val_loc(i), FIRST)) == NOW, "remembers a session that was not confirmed under these credentials now")
            # expiry
            c0 = init(CL, ('i', 64, True))
            sweep = E.mkcmp(s, '>', NOW, add(c0, exp))
            imp = lambda c, w: E.assume(s.copy(), c, not w) is None
            for i in range(1, n + 1):
                old = E.mkcmp(s, '>', NOW, add(init(('time', i), ('i', 64, True)), exp))
                if ('cache', i) in s.mon.get('gone', ()): ob('expires old only', imp(old, True), "drops a session that has not expired")
                elif not page and imp(sweep, True): ob('expires old', imp(old, False), "keeps an expired session although the cache is swept")
            if not page and imp(sweep, True): ob('sweep time', E.content(s, CL) == NOW, "does not note when the cache was swept")
            elif imp(sweep, False): ob('no sweep', E.content(s, CL) == c0, "notes a sweep that did not take place")
    return total


def redirpage(E, s, redir):
    from ..models import eq
    c = eq(E, redir, app('get_resource'))
    return E.assume(s.copy(), c, False) is None if not isinstance(c, int) else bool(c)


def strip(prog, R):
    f = meth(prog, 'pion::http::server::strip_trailing_slash')
    total = 0
    for t in ('', '/', 'a', 'a/', 'a//', '//', '/a', '/a/', '/a/b', '/a/b/', '/a/b//', '/ab./', '/a%2f', 'x' * 40 + '/'):
        H = Scen(); H.unroll = 60
        E = Engine(prog, H)
        fr, ex = E.entry(f, setup=lambda E, S, fr: set_arg(S, fr, f, 0, ('str', t)))
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        want = t[:-1] if t.endswith('/') else t
        if not ex: R.ob('strip:returns', False, where(f), "never returns", dict(text=t))
        for k, s, v in ex:
            total += 1
            c = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
            R.ob('strip:law', k == 'ret' and c == ('str', want), where(f), "the resource without its trailing slash is wrong", dict(text=t, got=str(c)))
    return total


class Const(AU):
    """constant texts; the decoder answers a constant"""
    decoded = None

    def call(self, E, S, fr, n, info):
        nm, a = info['nm'] or '', info['args']
        if nm == 'base64_decode' and len(a) == 2:
            S.mon['asked'] = E.content(S, a[0][1]) if a[0][0] == 'L' else a[0]
            if self.decoded is None: return [(S, 0)]
            E.write(S, fr, a[1][1], ('str', self.decoded), n)
            return [(S, 1)]
        return AU.call(self, E, S, fr, n, info)


def parsers(prog, R):
    total = 0
    f = meth(prog, BASIC + 'parse_authorization')
    for t in ('', 'Basic', 'Basic ', 'Basic abc', 'Basic YTpi', 'Basic  x', 'BasicX abc', 'Bearer abc', 'Digest username=x', 'xBasic abc', ' Basic abc', 'Basi abc', 'Basic\tabc', 'B', 'Basic a b', 'Basic ' + 'q' * 50):
        H = Const(); E = Engine(prog, H); H.unroll = 100
        fr, ex = E.entry(f, setup=lambda E, S, fr: set_arg(S, fr, f, 0, ('str', t)))
        R.engine(E)
        want = t[6:] if t.startswith('Basic ') and len(t) > 6 else None
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: R.ob('authorization:returns', False, where(f), "never returns", dict(text=t))
        for k, s, v in ex:
            total += 1
            v = v if isinstance(v, int) else E.truth_of(s, v)
            R.ob('authorization:accepts', k == 'ret' and v == int(want is not None), where(f), "an Authorization field is accepted exactly when it is 'Basic ' and non-empty credentials", dict(text=t))
            if want is not None: R.ob('authorization:credentials', E.content(s, params(f)[1][1]) == ('str', want), where(f), "the credentials are everything after 'Basic '", dict(text=t))
    f = meth(prog, BASIC + 'parse_credentials')
    for d in (None, '', ':', 'a', 'a:', ':b', 'a:b', 'ab:cd', 'a:b:c', 'a::', '::', 'user name:pass word', 'no colon at all', 'u' * 40 + ':' + 'p' * 40, 'a:\xff', '\xffa:b', 'a\0b:c\0d'):
        H = Const(); H.decoded = d; E = Engine(prog, H); H.unroll = 100
        C = init(('credentials',), 'str')
        fr, ex = E.entry(f, setup=lambda E, S, fr: set_arg(S, fr, f, 0, C))
        R.engine(E)
        want = None if d is None or d.find(':') < 1 else d.split(':', 1)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: R.ob('credentials:returns', False, where(f), "never returns", dict(decoded=d))
        for k, s, v in ex:
            total += 1
            v = v if isinstance(v, int) else E.truth_of(s, v)
            R.ob('credentials:accepts', k == 'ret' and v == int(want is not None), where(f), "credentials are accepted exactly when they decode to a text with a ':' after at least one character", dict(decoded=d))
            if want is not None:
                R.ob('credentials:split', [E.content(s, params(f)[i][1]) for i in (1, 2)] == [('str', x) for x in want], where(f), "the user name ends at the first ':', the password is all that follows", dict(decoded=d, got=str([E.content(s, params(f)[i][1]) for i in (1, 2)])))
            R.ob('credentials:decoded', s.mon.get('asked') == C, where(f), "decodes something other than the credentials")
    return total


class LH(AU):
    url = None

    def call(self, E, S, fr, n, info):
        nm, cls, a, nid = info['nm'] or '', info['cls'] or '', info['args'], info['nid']
        if nm == 'get_query' and self.url is not None and isinstance(a[0], tuple) and a[0][0] == 'L' and E.content(S, a[0][1]) == ('str', 'url'):
            return [(S, E.tmp(S, fr, nid, ('str', self.url)))]
        if nm == 'get_query' and self.url is not None and isinstance(a[0], tuple) and a[0][0] == 'strp' and a[0][1].rstrip('\0') == 'url': return [(S, E.tmp(S, fr, nid, ('str', self.url)))]
        if nm == 'operator()' and 'variate_generator' in cls or ('mersenne_twister' in cls or 'random_device' in cls or 'uniform_' in cls) and nm == 'operator()':
            k = S.mon.get('draws', 0); S.mon['draws'] = k + 1
            t = app('draw', k, tag=('i', 32, True)); S.setint(t, ((0, 255),))
            return [(S, t)]
        if nm == 'base64_encode' and len(a) == 2:
            c = E.content(S, a[0][1]) if a[0][0] == 'L' else a[0]
            S.mon['token'] = c
            E.write(S, fr, a[1][1], app('b64', c), n)
            return [(S, 1)]
        return AU.call(self, E, S, fr, n, info)


def draws(t):
    if isinstance(t, tuple):
        if t[:2] == ('app', 'draw'): return {t[2]}
        return set().union(*[draws(x) for x in t]) if t else set()
    return set()


def sessions(prog, R):
    f = meth(prog, COOKIE + 'process_login')
    total = 0
    RES = app('strip', app('get_resource'))
    Q = lambda k: app('get_query', ('str', k))
    IN, OUT = init(('login',), 'str'), init(('logout',), 'str')
    from ..models import eq
    for n, url in ((0, None), (1, None), (2, None)) + tuple((0, u) for u in ('', '/', 'http://host/a?b=c#d', '\r', '\n', '/a\r\nSet-Cookie: pion_session_id=x', '/a\nb', '/a\rb', '/a\r\n')):
        H = LH(('strip', 'handle_unauthorized', 'handle_redirection', 'handle_ok'))
        H.MAPF = 'm_user_cache'
        H.unroll = 60
        H.url = url
        Q = lambda k: ('str', url) if k == 'url' and url is not None else app('get_query', ('str', k))
        E = Engine(prog, H)

        def setup(E, S, fr):
            for i in H.populate(S, 'cache', n):
                S.mem[('f', val_loc(i), FIRST)] = init(('time', i), ('i', 64, True))
                S.mem[('f', val_loc(i), SECOND)] = init(('user', i), 'p')
            S.mem[('f', this, COOKIE + 'm_login')], S.mem[('f', this, COOKIE + 'm_logout')] = IN, OUT
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("process_login has no exit")
        for kind, s, v in ex:
            total += 1
            def ob(k, ok, msg): R.ob("login:" + k, ok, where(f), msg, dict(cached=n, path=s.path()))
            ob('returns', kind == 'ret', "throws")
            if kind != 'ret': continue
            t = v if isinstance(v, int) else E.truth_of(s, v)
            l = evs(s)
            for e in l:
                if e[0] == 'bad': ob('iterators', False, e[1])
            fact = lambda x: 1 if E.assume(s.copy(), eq(E, RES, x), False) is None else 0 if E.assume(s.copy(), eq(E, RES, x), True) is None else None
            li, lo = fact(IN), fact(OUT)
            added = [i for m, i in s.mon.get('added', ())]
            gone = [i for m, i in s.mon.get('gone', ())]
            gu = [e for e in l if e[0] == 'get_user']
            hu = [e for e in l if e[0] == 'handle_unauthorized']
            done = [e for e in l if e[0] in ('handle_redirection', 'handle_ok')]
            ob('decided', t is not None, "the answer is not decided")
            if t == 0:
                ob('other resources', li == 0 and lo == 0 and not l and not added and not gone, "a login or logout request is not processed, or another one has effects")
                continue
            ob('only login pages', li == 1 or lo == 1, "processes a request for another resource")
            if li == 1:
                ob('checks password', len(gu) == 1 and gu[0][2:] == (Q('user'), Q('pass')), "a login asks for the user with the given name and password exactly once")
                if not (gu and gu[0][1]):
                    ob('failed login', len(hu) == 1 and not done and not added and not gone, "a failed login must be refused exactly once and open no session")
                    continue
                ob('no session lost', not gone, "a login ends another session")
                u = app('account', Q('user'), Q('pass'), tag='p')
                tok = s.mon.get('token')
                if any(s.mon.get(('alias', i)) for i in range(1, n + 1)): continue      # a random token met an existing one
                ok = len(added) == 1 and E.content(s, ('f', val_loc(added[0]), SECOND)) == u and E.content(s, ('f', val_loc(added[0]), FIRST)) == NOW
                ob('opens session', ok, "a successful login opens exactly one session, of the user whose password was confirmed, now")
                if ok:
                    key = E.content(s, key_loc(added[0]))
                    ob('random token', len(draws(key)) >= 16, "the session token must contain at least 16 random bytes")
                    ob('sends token', len(done) == 1 and key in done[0] and not hu, "answers a login other than exactly once with the session token")
                    ob('keeps cookie', bool(done) and done[0][-1] == 0, "deletes the cookie of a new session")
            elif lo == 1:
                key = app('get_cookie', ('str', 'pion_session_id'))
                hit = [i for i in range(1, n + 1) if key in s.mon.get(('alias', i), ())]
                ob('logout looks up', all(k == key for i in range(1, n + 1) for k in s.mon.get(('alias', i), ())), "looks up another session")
                ob('ends session', not added and sorted(gone) == sorted(hit), "a logout ends the presented session and nothing else")
                emp = E.assume(s.copy(), E.mkcmp(s, '==', E.size_of(key), 0), False) is None
                ob('presented session', emp or key in H.entries(s, 'cache')[2] or bool(hit), "a logout does not look for the presented session")
                ob('deletes cookie', len(done) == 1 and done[0][-1] == 1 and not hu, "a logout is answered exactly once, telling the client to forget the cookie")
            if done:
                d = done[0]
                if url is not None:
                    bad = '\r' in url or '\n' in url
                    if bad: ob('header injection', d[0] == 'handle_ok' or not set('\r\n') & set(text(d[1]) or '\n'), "redirects to a url with a line break: it ends the Location header")
                    else: ob('redirect', d[0] == ('handle_redirection' if url else 'handle_ok') and (not url or d[1] == ('str', url)), "a login or logout redirects exactly when a url is given, and to it")
                elif d[0] == 'handle_redirection': ob('redirect', d[1] == Q('url'), "redirects elsewhere than the given url")
    return total


def authentication(prog, R, tier):
    R.rule("each step of authentication interpreted abstractly over opaque requests and collaborators: the cover test over up to 3 list entries, the lists, the need for authentication, the decision of both authenticators over caches of up to 2 sessions with expiry times left open, the parsing of the Authorization field, login and logout")
    R.assumptions += ["boost::posix_time arithmetic and the random generator behave as documented", "the user manager answers as C30 decides"]
    c = [('exits of find_resource', cover(prog, R)), ('exits of need_authentication', need(prog, R)), ('exits of add_restrict and add_permit', lists(prog, R)),
         ('texts for strip_trailing_slash', strip(prog, R)), ('exits of basic_auth::handle_request', decide(prog, R, 'basic')),
         ('exits of cookie_auth::handle_request', decide(prog, R, 'cookie')), ('texts for the credential parsers', parsers(prog, R)), ('exits of process_login', sessions(prog, R))]
    for k, v in c: R.count(k, v)
    R.floor('exits examined', sum(v for k, v in c), 200)


# ------------------------------------------------------------------ request dispatch
SV = 'pion::http::server::'
HANDLERS = {'m_bad_request_handler': 'bad_request', 'm_server_error_handler': 'server_error', 'm_not_found_handler': 'not_found'}


class DH(AU):
    MAPF = 'm_redirects'

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        def ev(s, *e): self.ev(s, *(e + (tuple(m for m in s.locks),)))
        if cls.startswith('boost::function') and nm == 'operator()':
            who = HANDLERS.get(obj[2].rsplit('::', 1)[-1]) if obj[0] == 'f' and isinstance(obj[2], str) else None
            if who is None: who = 'handler' if E.content(S, obj) == app('found', tag='o') else 'unknown handler'
            ev(S, who, *[sc(x) for x in a])
            out = [(S, 0)]
            if who == 'handler':
                for t in ('std::bad_alloc', 'std::runtime_error', 'boost::exception'):
                    s2 = S.copy(); s2.mon['threw'] = t
                    out.append(('throw', s2, t))
            return out
        if nm == 'handle_request' and cls.startswith('pion::http::auth'):
            s2 = S.copy()
            ev(S, 'auth', 1, *[sc(x) for x in a]); ev(s2, 'auth', 0, *[sc(x) for x in a])
            return [(S, 1), (s2, 0)]
        if nm == 'find_request_handler':
            s2 = S.copy()
            ev(S, 'find', sc(a[0])); ev(s2, 'find', sc(a[0]))
            E.write(S, fr, a[1][1], app('found', tag='o'), n)
            return [(S, 1), (s2, 0)]
        if nm == 'is_valid' and cls.startswith('pion::http'): return [(S, app('valid', tag=('i', 1, False)))]
        if nm == 'is_open' and cls.startswith('pion::tcp'): return [(S, app('open', tag=('i', 1, False)))]
        if nm in ('set_lifecycle', 'finish') and cls.startswith('pion::tcp'):
            ev(S, nm, *[sc(x) for x in a]); return [(S, 0)]
        if nm == 'change_resource':
            ev(S, nm, sc(a[0])); return [(S, 0)]
        if nm == 'strip_trailing_slash': return [(S, E.tmp(S, fr, nid, app('strip', sc(a[0]))))]
        if nm in ('operator==', 'operator!=') and 'error_category' in (cls + ' '.join(n.get('pt') or [])):
            t = app('parsererror', tag=('i', 1, False))
            return [(S, E.mkcmp(S, '!=' if nm == 'operator==' else '==', t, 0))]
        return AU.call(self, E, S, fr, n, info)


def dispatch(prog, R, tier):
    R.rule("http::server::handle_request interpreted abstractly over up to 2 redirections, every answer of the authenticator and of the look-up, and every outcome of the handler (return, std::exception, boost::exception, out of memory): a broken request closes the connection and is answered or finished exactly once; otherwise no handler runs before the authenticator has agreed, exactly one answer is arranged, handlers run with no lock held, and the routed resource is the one redirections produced")
    R.assumptions += ["handlers, authenticator and look-up are opaque (C31, C39 and C32's own answer checks decide them)"]
    f = meth(prog, SV + 'handle_request')
    ps = params(f)
    RQ, CN = [init(p[1], 'p') for p in ps[:2]]
    total = 0
    RES = app('strip', app('get_resource'))
    CLOSE = prog_const(prog, 'pion::tcp::connection::LIFECYCLE_CLOSE', 0)
    for n in (0, 1, 2):
        H = DH()
        H.unroll = 16
        E = Engine(prog, H)

        def setup(E, S, fr):
            for i in H.populate(S, 'cache', n): S.mem[val_loc(i)] = init(val_loc(i), 'str')
            for x in (RQ, CN): S.setint(x, ((1, 1 << 47),))
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("handle_request has no exit")
        if n: R.ob('dispatch:redirections end', any('server_error' in [e[0] for e in evs(s)] and 'handler' not in [e[0] for e in evs(s)] for k, s, v in ex), where(f), "a redirection to itself is never reported", dict(redirections=n))
        for kind, s, v in ex:
            total += 1
            def ob(k, ok, msg): R.ob("dispatch:" + k, ok, where(f), msg, dict(redirections=n, events=[e[0] for e in evs(s)], path=s.path()))
            l = evs(s)
            for e in l:
                if e[0] == 'bad': ob('iterators', False, e[1])
            N = [e[0] for e in l]
            hs = [e for e in l if e[0] in ('bad_request', 'server_error', 'not_found', 'handler', 'unknown handler')]
            ob('throws', kind == 'ret' or s.mon.get('threw') == 'std::bad_alloc', "lets an exception of the handler escape")
            for e in hs:
                ob('no lock', not e[-1], "calls a handler with a lock held")
                ob('arguments', e[1] == RQ and e[2] == CN, "hands a handler another request or connection")
            if 'auth' in N:
                e = l[N.index('auth')]
                ob('auth once', N.count('auth') == 1 and not e[-1] and e[2:4] == (RQ, CN), "asks the authenticator other than once, with a lock held or about another request")
            ob('unknown handler', 'unknown handler' not in N, "calls a handler that was not found for the request")
            # the error exit
            fec = error_fact(E, s, ps[2][1])
            val = fact(E, s, app('valid', tag=('i', 1, False)))
            broken = fec == 1 or val == 0
            ans = N.count('bad_request') + N.count('finish')
            if broken:
                ob('broken request', not set(N) & {'auth', 'handler', 'not_found', 'server_error'}, "processes a broken request")
                ob('broken answered', ans == 1, "a broken request must be answered or finished exactly once")
                ob('broken closes', any(e[0] == 'set_lifecycle' and e[1] == CLOSE for e in l) and N.index('set_lifecycle') < min([N.index(x) for x in ('bad_request', 'finish') if x in N] or [99]), "the connection must be marked for closing first")
                if 'bad_request' in N: ob('bad request', fact(E, s, app('open', tag=('i', 1, False))) == 1 and fact(E, s, app('parsererror', tag=('i', 1, False))) == 1, "answers a connection that is gone, or an error of the transport")
                elif 'finish' in N: ob('bad request answered', fact(E, s, app('open', tag=('i', 1, False))) == 0 or fact(E, s, app('parsererror', tag=('i', 1, False))) == 0, "a request refused by the parser is not answered")
                continue
            ob('valid request', fec == 0 and val == 1, "a request is processed although it need not be valid")
            ob('left open', 'set_lifecycle' not in N and not ans, "closes or finishes a connection whose request was fine")
            au = fact(E, s, init(('f', this, SV + 'm_auth_ptr'), 'p'))
            over = 'server_error' in N and 'handler' not in N
            ch = [e[1] for e in l if e[0] == 'change_resource']
            final = ch[-1] if ch else RES
            if over:
                ob('overflow', len(ch) >= 2 and len(set(ch)) < len(ch) and len(hs) == 1 and 'auth' not in N, "reports too many redirections although they end")
                continue
            if au != 0: ob('authenticated', 'auth' in N, "processes a request without asking the authenticator")
            denied = any(e[0] == 'auth' and not e[1] for e in l)
            if denied:
                ob('denied', N[-1] == 'auth' and not hs, "a refused request is processed further")
                continue
            ob('auth first', not hs or 'auth' not in N or N.index('auth') < N.index(hs[0][0]), "runs a handler before the authenticator has agreed")
            fd = [e for e in l if e[0] == 'find']
            ob('routed', len(fd) == 1 and fd[0][1] == final, "looks up another resource than the one requested and redirected")
            threw = s.mon.get('threw')
            want = ['not_found'] if 'handler' not in N else ['handler'] + (['server_error'] if threw and threw != 'std::bad_alloc' else [])
            ob('one answer', [e[0] for e in hs] == want, "the request is not answered by exactly one handler (followed by the server error answer when it fails)")
            # redirections
            keys = [RES] + ch
            ok = True
            for a, b in zip(keys, ch):
                ok &= any(b == init(val_loc(i), 'str') and (a in s.mon.get(('alias', i), ()) or a == init(key_loc(i), 'str')) for i in range(1, n + 1))
            ob('redirected', ok, "follows a redirection that is not registered for the resource")
            ob('redirected on', n == 0 or final in H.entries(s, 'cache')[2], "does not look for a redirection of the resource it routes")
    R.count('exits of handle_request', total)
    R.floor('exits examined', total, 40)


def fact(E, s, t):
    return 1 if E.assume(s.copy(), E.mkcmp(s, '!=', t, 0), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '!=', t, 0), True) is None else None


def error_fact(E, s, loc):
    from ..models import boolof
    c = boolof(E, E.content(s, loc))
    if isinstance(c, int): return c
    return 1 if E.assume(s.copy(), c, False) is None else 0 if E.assume(s.copy(), c, True) is None else None


def prog_const(prog, name, default):
    g = prog.globals.get(name)
    return int(g['int']) if g and 'int' in g else default


# ------------------------------------------------------------------ the answers built in
class AN(AU):
    W, RSP = ('o', 'writer'), ('o', 'response')

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else (('str', v[1].rstrip('\0')) if isinstance(v, tuple) and v and v[0] == 'strp' else v)
        if nm == 'create' and cls.startswith('pion::http::response_writer'):
            S.mon['made'] = S.mon.get('made', 0) + 1
            self.ev(S, 'create', sc(a[0]), a[1][1] if isinstance(a[1], tuple) and a[1][0] == 'L' else a[1], sc(a[2]))
            p = E.addr(self.W); S.setint(p, ((1, 1 << 47),))
            return [(S, E.tmp(S, fr, nid, p))]
        if nm == 'get_response' and obj == self.W: return [(S, ('L', self.RSP))]
        if obj == self.RSP and nm in ('set_status_code', 'set_status_message', 'add_header', 'change_header', 'set_cookie', 'delete_cookie', 'set_content_type'):
            self.ev(S, nm, *[sc(x) for x in a]); return [(S, 0)]
        if obj == self.W and nm in ('write', 'write_no_copy', 'send', 'send_final_chunk', 'send_chunk'):
            self.ev(S, nm, *[sc(x) for x in a]); return [(S, 0)]
        if nm == 'operator<<' and len(a) == 2 and 'writer' in ' '.join(n.get('pt') or []) + n.get('type', ''):
            self.ev(S, 'write', sc(a[1])); return [(S, a[0])]
        if nm == 'xml_encode': return [(S, E.tmp(S, fr, nid, app('xml', sc(a[0]))))]
        if nm == 'handle_redirection' and nm in self.opaque:
            self.ev(S, nm, *[sc(x) for x in a[2:]]); return [(S, 0)]
        return AU.call(self, E, S, fr, n, info)


def answers(prog, R):
    total = 0
    todo = [(SV + 'handle_bad_request', 400, 'Bad Request'), (SV + 'handle_not_found_request', 404, 'Not Found'), (SV + 'handle_server_error', 500, 'Server Error'),
            (SV + 'handle_forbidden_request', 403, 'Forbidden'), (SV + 'handle_method_not_allowed', 405, 'Method Not Allowed'),
            (BASIC + 'handle_unauthorized', 401, 'Unauthorized'), (COOKIE + 'handle_unauthorized', 401, 'Unauthorized'),
            (COOKIE + 'handle_redirection', 302, 'Found'), (COOKIE + 'handle_ok', 204, 'No Content')]
    for fn, code, text in todo:
        f = meth(prog, fn)
        ps = params(f)
        RQ, CN = [init(p[1], 'p') for p in ps[:2]]
        short = fn.split('::', 2)[2]
        for delete in ((0, 1) if short in ('cookie_auth::handle_redirection', 'cookie_auth::handle_ok') else (None,)):
            H = AN(('handle_redirection',)); E = Engine(prog, H)

            def setup(E, S, fr):
                for x in (RQ, CN): S.setint(x, ((1, 1 << 47),))
                if delete is not None: set_arg(S, fr, f, len(ps) - 1, delete)
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                l = evs(s)
                N = [e[0] for e in l]
                def ob(k, ok, msg): R.ob("%s:%s" % (short, k), ok, where(f), msg, dict(events=[str(e)[:200] for e in l], path=s.path()))
                ob('returns', kind == 'ret', "throws")
                one = lambda nm: [e for e in l if e[0] == nm]
                if short == 'cookie_auth::handle_unauthorized':
                    rd = init(('f', this, COOKIE + 'm_redirect'), 'str')
                    em = fact(E, s, app('x', tag=('i', 1, False))) if False else (1 if E.assume(s.copy(), E.mkcmp(s, '==', E.size_of(rd), 0), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '==', E.size_of(rd), 0), True) is None else None)
                    ob('decided', em is not None, "the answer does not depend on whether a redirection is configured")
                    if em == 0:
                        ob('redirects', N == ['handle_redirection'] and l[0][1:] == (rd, ('str', ''), 0), "a refused request is not redirected to the configured page, without a cookie")
                        continue
                    ob('no redirect', 'handle_redirection' not in N, "redirects although no page is configured")
                c = one('create')
                ob('one writer', len(c) == 1 and c[0][1] == CN and c[0][2] == E.deref(RQ), "answers on another connection or for another request, or more than once")
                ob('finishes', len(c) == 1 and 'connection::finish' in str(c[0][3]) and str(CN) in str(c[0][3]), "does not finish the connection when the answer was sent")
                ob('sent once', N.count('send') == 1 and N[-1] == 'send', "the answer is not sent exactly once, as the last step")
                ob('status', [e[1] for e in one('set_status_code')] == [code] and [e[1] for e in one('set_status_message')] == [('str', text)], "the status is not %d %s" % (code, text))
                h = {e[1]: e[2] for e in one('add_header') + one('change_header')}
                if short == 'basic_auth::handle_unauthorized':
                    w = h.get(('str', 'WWW-Authenticate'))
                    ob('challenge', w == E.cat(('str', 'Basic realm="'), init(('f', this, BASIC + 'm_realm'), 'str'), ('str', '"')), "does not ask for Basic credentials of the realm")
                if short == 'cookie_auth::handle_redirection':
                    ob('location', h.get(('str', 'Location')) == init(ps[2][1], 'str'), "does not redirect to the given address")
                if short == 'server::handle_method_not_allowed':
                    am = init(ps[2][1], 'str')
                    e = E.mkcmp(s, '==', E.size_of(am), 0)
                    ob('allow', h.get(('str', 'Allow')) == am or ('str', 'Allow') not in h and E.assume(s.copy(), e, False) is None, "does not name the allowed methods")
                if delete is not None:
                    nc = init(ps[-2][1], 'str')
                    sc_, dc = one('set_cookie'), one('delete_cookie')
                    name = ('str', 'pion_session_id')
                    if delete: ob('cookie', not sc_ and len(dc) == 1 and dc[0][1] == name, "does not tell the client to forget the session cookie")
                    else:
                        e = E.mkcmp(s, '==', E.size_of(nc), 0)
                        ob('cookie', not dc and (len(sc_) == 1 and sc_[0][1:3] == (name, nc) or not sc_ and E.assume(s.copy(), e, False) is None), "does not hand out the new session cookie")
    R.count('exits of the built-in answers', total)


def clean(t):
    """text known at compile time or produced by the XML encoder"""
    if isinstance(t, int): return True
    if t[0] in ('str', 'strp'): return True
    if t[0] == 'cat': return all(clean(x) for x in t[1:])
    return t[:2] == ('app', 'xml')


# ------------------------------------------------------------------ C30 users
U = 'pion::user::'
import re


class CU(AU):
    """passwords and digests; constant texts through iterators"""
    digest = {}                                      # 'SHA256' / 'SHA1' -> bytes

    def cell(self, E, S, p):
        return E.read(S, E.deref(p, S), ('i', 8, False))

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid, sfn = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid'], info['sfn'] or ''
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else v
        if nm in ('SHA256', 'SHA1', 'SHA384', 'SHA512', 'MD5') and len(a) == 3:
            self.ev(S, 'digest', nm, a[0], a[1])
            d = self.digest.get(nm)
            if d is not None and a[2] != 0:
                for j, b in enumerate(d): E.write(S, fr, E.deref(add(a[2], j)), b, n)
            return [(S, a[2])]
        if nm in ('memcmp', 'CRYPTO_memcmp') and len(a) == 3 and isinstance(a[2], int):
            for j in range(a[2]):
                x, y = self.cell(E, S, add(a[0], j)), self.cell(E, S, add(a[1], j))
                if not (isinstance(x, int) and isinstance(y, int)):
                    t = E.sym(fr, nid, ('i', 32, True), 'memcmp'); return [(S, t)]
                if x != y: return [(S, 1 if x > y else -1)]
            return [(S, 0)]
        if sfn == 'std::equal' and len(a) == 3:
            ln = sub(sc(a[1]), sc(a[0]))
            if isinstance(ln, int):
                l = [(self.cell(E, S, add(sc(a[0]), j)), self.cell(E, S, add(sc(a[2]), j))) for j in range(ln)]
                if all(isinstance(x, int) and isinstance(y, int) for x, y in l): return [(S, int(all(x & 255 == y & 255 for x, y in l)))]
        if sfn in ('std::copy', 'memcpy', 'std::memcpy', 'memmove') and len(a) == 3:
            dst, src, ln = (sc(a[2]), sc(a[0]), sub(sc(a[1]), sc(a[0]))) if sfn == 'std::copy' else (a[0], a[1], a[2])
            if isinstance(ln, int) and not (isinstance(src, tuple) and src[0] == 'app'):
                l = [self.cell(E, S, add(src, j)) for j in range(ln)]
                for j, b in enumerate(l): E.write(S, fr, E.deref(add(dst, j)), b, n)
                return [(S, dst)]
        if sfn in ('sprintf', 'snprintf', 'std::sprintf', 'std::snprintf'):
            i = 1 if 'snprintf' in sfn else 0
            fmt = a[1 + i]
            vs = [sc(x) for x in a[2 + i:]]
            if isinstance(fmt, tuple) and fmt[0] == 'strp' and all(isinstance(v, int) for v in vs):
                pf = re.sub(r'%([-0 #+.\d]*)(?:hh|h|l|ll|z)?([xXud])', r'%\1\2', fmt[1].rstrip('\0')).replace('u', 'd')
                try: t = pf % tuple(vs)
                except (TypeError, ValueError): t = None
                if t is not None:
                    w = t[:a[1] - 1] if i and isinstance(a[1], int) else t
                    for j, ch in enumerate(w + '\0'): E.write(S, fr, E.deref(add(a[0], j)), ord(ch), n)
                    return [(S, len(t))]
        if nm in ('strtol', 'strtoul', 'strtoll', 'strtoull') and len(a) == 3 and isinstance(a[2], int):
            t = ''
            for j in range(40):
                c = self.cell(E, S, add(a[0], j))
                if not isinstance(c, int): t = None; break
                if c == 0: break
                t += chr(c & 255)
            m = re.match(r'\s*([-+]?)(?:0[xX](?=[0-9a-fA-F]))?([0-9a-fA-F]*)', t) if t is not None and a[2] == 16 else re.match(r'\s*([-+]?)(\d*)', t) if t is not None and a[2] == 10 else None
            if m:
                v = int(m.group(2) or '0', a[2])
                return [(S, (-v if m.group(1) == '-' else v) & ((1 << 64) - 1) if 'toul' in nm or 'toull' in nm else -v if m.group(1) == '-' else v)]
        if nm == 'numeric_cast' and len(a) == 1 and isinstance(sc(a[0]), int):
            from ..eng import type_set
            v, ts = sc(a[0]), type_set(E.tag(n))
            if ts and ts[0][0] <= v <= ts[-1][1]: return [(S, v)]
            return [('throw', S, 'boost::numeric::bad_numeric_cast')]
        # iterators into constant texts
        if cls.startswith('std::basic_string<char') and nm in ('begin', 'end', 'cbegin', 'cend') and obj is not None:
            c = E.content(S, obj)
            if c[0] == 'str': return [(S, E.tmp(S, fr, nid, ('app', 'sit', obj, 0 if 'begin' in nm else len(c[1]))))]
        it = [sc(x) for x in (([('L', obj)] if obj is not None and not info.get('ctor') else []) + list(a))]
        if it and isinstance(it[0], tuple) and it[0][:2] == ('app', 'sit'):
            o, i = it[0][2:]
            if info.get('ctor') and len(a) == 1 and 'iterator' in cls: S.mem[obj] = it[0]; return [(S, None)]
            if nm in ('operator!=', 'operator==', 'operator<', 'operator-') and len(it) == 2 and isinstance(it[1], tuple) and it[1][:2] == ('app', 'sit') and it[1][2] == o:
                j = it[1][3]
                return [(S, int({'operator!=': i != j, 'operator==': i == j, 'operator<': i < j, 'operator-': i - j}[nm]))]
            if nm == 'operator*' and len(it) == 1: return [(S, ('L', ('f', o, ('ch', i))))]
            if nm in ('operator++', 'operator--') and obj is not None:
                S.mem[obj] = ('app', 'sit', o, i + (1 if nm == 'operator++' else -1))
                return [(S, ('L', obj) if not a else E.tmp(S, fr, nid, it[0]))]
            if nm in ('operator+', 'operator-') and len(it) == 2 and isinstance(it[1], int): return [(S, E.tmp(S, fr, nid, ('app', 'sit', o, i + (it[1] if nm == 'operator+' else -it[1]))))]
            if nm in ('operator+=', 'operator-=') and len(it) == 2 and isinstance(it[1], int):
                S.mem[obj] = ('app', 'sit', o, i + (it[1] if nm == 'operator+=' else -it[1])); return [(S, ('L', obj))]
            if nm == 'operator[]' and len(it) == 2 and isinstance(it[1], int): return [(S, ('L', ('f', o, ('ch', i + it[1]))))]
        return AU.call(self, E, S, fr, n, info)


def text(c):
    """the constant text of a string term, or None"""
    if c[0] == 'str': return c[1]
    if c[0] == 'chr': return chr(c[1] & 255) if isinstance(c[1], int) else None
    if c[0] == 'cat':
        l = [text(x) for x in c[1:]]
        return None if None in l else ''.join(l)
    return None


HASH = ('f', this, U + 'm_password_hash')


def builtin(prog, R, tier):
    R.rule("every built-in answer interpreted abstractly: on every path one writer on the request's own connection that finishes it, the status and message the answer stands for, the fields that go with it, one send as the last step")
    R.assumptions += ["response_writer behaves as C17 decides"]
    answers(prog, R)


def passwords(prog, R):
    total = 0
    ssl = bool(prog.by_name.get(U + 'set_password_hash'))

    def run(f, state=None, digest=None, arg=None, args=()):
        H = CU(); H.digest = digest or {}
        H.unroll = 80
        E = Engine(prog, H)

        def setup(E, S, fr):
            if state is not None:
                for l, v in state.mem.items():
                    if l == this or E.under(l, this): S.mem[l] = v
            if arg is not None: set_arg(S, fr, f, 0, arg)
            for i, x in enumerate(args): set_arg(S, fr, f, i, x)
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        return H, E, [x for x in ex if x[0] in ('ret', 'throw')]

    def hashed(f, s, E, P, algo, k):
        d = [e for e in evs(s) if e[0] == 'digest']
        ptr = [('app', 'c_str', P), ('strp', P[1])] if P[0] == 'str' else [('app', 'c_str', P)]
        R.ob(k + ':digest', len(d) == 1 and d[0][1] == algo and d[0][2] in ptr and d[0][3] == E.size_of(P), where(f), "does not take the %s digest of the whole password and nothing else" % algo, dict(digests=str(d)))
    f = meth(prog, U + 'set_password')
    mf = meth(prog, U + 'match_password')
    PW = init(params(f)[0][1], 'str')
    QW = init(params(mf)[0][1], 'str')
    # a fresh account matches nothing
    for cf in [g for g in prog.by_name.get(U + 'user', []) if 'blocks' in g and len(g['params']) == 1]:
        H, E, ex = run(cf)
        for k, s, v in ex:
            for dg in ([0] * 32, list(range(32)), [255] * 32):
                H2, E2, ex2 = run(mf, s, {'SHA256': dg, 'SHA1': dg[:20]})
                for k2, s2, v2 in ex2:
                    total += 1
                    v2 = v2 if isinstance(v2, int) else E2.truth_of(s2, v2)
                    R.ob('no password', k2 == 'ret' and v2 == 0, where(mf), "an account without a password accepts one", dict(digest=dg[:4]))
    digs = [[(32 * k + j) & 255 for j in range(32)] for k in range(8)] + [[0] * 32, [255] * 32]
    for k8, dg in enumerate(digs):
        H, E, ex = run(f, None, {'SHA256': dg})
        if not ex: raise AnalysisError("set_password has no exit")
        for k, s, v in ex:
            total += 1
            R.ob('set_password:returns', k == 'ret', where(f), "throws")
            hashed(f, s, E, PW, 'SHA256', 'set_password')
            got = text(E.content(s, ('f', this, U + 'm_password')))
            R.ob('set_password:text', got == ''.join('%02x' % b for b in dg), where(f), "the stored text is not the digest in lower case hexadecimal", dict(got=str(got), digest=dg))
            if k8 not in (0, 4, 8, 9): continue
            for diff in [None] + list(range(32)):
                d2 = list(dg)
                if diff is not None: d2[diff] ^= 1 << (diff % 8)
                H2, E2, ex2 = run(mf, s, {'SHA256': d2, 'SHA1': d2[:20]})
                if not ex2: raise AnalysisError("match_password has no exit")
                for k2, s2, v2 in ex2:
                    total += 1
                    hashed(mf, s2, E2, QW, 'SHA256', 'match_password')
                    v2 = v2 if isinstance(v2, int) else E2.truth_of(s2, v2)
                    R.ob('match_password', k2 == 'ret' and v2 == int(diff is None), where(mf), "a password matches exactly when its digest equals the stored one in every byte", dict(differs_at=diff))
    if not ssl: return total
    hf = meth(prog, U + 'set_password_hash')
    for nbytes, algo in ((32, 'SHA256'), (20, 'SHA1')):
        for k8 in range(0, 256, nbytes):
            bs = [(k8 + j) & 255 for j in range(nbytes)]
            for up in (0, 1):
                tx = ''.join(('%02X' if up else '%02x') % b for b in bs)
                H, E, ex = run(hf, None, arg=('str', tx))
                if not ex: raise AnalysisError("set_password_hash has no exit")
                for k, s, v in ex:
                    total += 1
                    R.ob('set_password_hash:returns', k == 'ret', where(hf), "refuses a well-formed digest", dict(text=tx))
                    R.ob('set_password_hash:text', text(E.content(s, ('f', this, U + 'm_password'))) == tx, where(hf), "the stored text is not the one given", dict(text=tx))
                    if k != 'ret' or up or k8 not in (0, 160): continue
                    for diff in [None] + list(range(nbytes)):
                        d2 = list(bs)
                        if diff is not None: d2[diff] ^= 1 << (diff % 8)
                        H2, E2, ex2 = run(mf, s, {algo: d2})
                        for k2, s2, v2 in ex2:
                            total += 1
                            hashed(mf, s2, E2, QW, algo, 'match_password:' + algo)
                            v2 = v2 if isinstance(v2, int) else E2.truth_of(s2, v2)
                            R.ob('match_password:' + algo, k2 == 'ret' and v2 == int(diff is None), where(mf), "after set_password_hash a password matches exactly when its digest equals the given one", dict(differs_at=diff))
    for ln in (0, 1, 19, 20, 21, 32, 38, 39, 41, 42, 62, 63, 65, 66, 128):
        H, E, ex = run(hf, None, arg=('str', 'a' * ln))
        for k, s, v in ex:
            total += 1
            R.ob('set_password_hash:length', k == 'throw', where(hf), "accepts a digest of a length no algorithm has", dict(length=ln))
            R.ob('set_password_hash:untouched', not [l for l in s.mem if E.under(l, this) and not l[2].endswith('vptr')], where(hf), "a refused digest changes the account", dict(length=ln))
    return total


UM = 'pion::user_manager::'


class MU(AU):
    MAPF = 'm_users'
    fail = False

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        if info.get('ctor') and strip_targs(cls) == 'pion::user':
            self.ev(S, 'new', *[sc(x) for x in a])
            S.mem[obj] = app('user', *[sc(x) for x in a], tag='o')
            return [(S, None)]
        if nm in ('set_password', 'set_password_hash') and strip_targs(cls) == 'pion::user':
            s2 = S.copy()
            c = E.content(S, obj)
            self.ev(S, nm, c if c[:2] == ('app', 'user') else obj, sc(a[0])); self.ev(s2, nm + ' fails')
            return [(S, 0), ('throw', s2, 'pion::error::bad_password_hash')] if nm == 'set_password_hash' else [(S, 0)]
        if nm == 'match_password' and strip_targs(cls) == 'pion::user':
            s2 = S.copy()
            self.ev(S, nm, obj, sc(a[0]), 1); self.ev(s2, nm, obj, sc(a[0]), 0)
            return [(S, 1), (s2, 0)]
        return AU.call(self, E, S, fr, n, info)


def manager(prog, R):
    total = 0
    todo = [('add_user', 2), ('update_user', 2), ('add_user_hash', 2), ('update_user_hash', 2), ('remove_user', 1), ('get_user', 1), ('get_user', 2), ('empty', 0)]
    for fn, na in todo:
        fs = [f for f in prog.by_name.get(UM + fn, []) if 'blocks' in f and len(f['params']) == na]
        if not fs:
            if 'hash' in fn: continue
            raise AnalysisError("no %s%s with %d parameters" % (UM, fn, na))
        f = fs[0]
        ps = [init(p[1], 'str') for p in params(f)]
        for n in (0, 1, 2):
            H = MU(); E = Engine(prog, H)

            def setup(E, S, fr):
                for i in H.populate(S, 'cache', n):
                    p = init(('account', i), 'p'); S.setint(p, ((1, 1 << 47),))
                    S.mem[val_loc(i)] = p
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                short = fn if fn != 'get_user' else 'get_user/%d' % na
                def ob(k, ok, msg): R.ob("%s:%s" % (short, k), ok, where(f), msg, dict(accounts=n, events=[str(e)[:120] for e in evs(s)], path=s.path()))
                l = evs(s)
                for e in l:
                    if e[0] == 'bad': ob('iterators', False, e[1])
                ob('unlocked', kind == 'throw' or not s.locks, "keeps the mutex")
                added = [i for m, i in s.mon.get('added', ())]
                gone = [i for m, i in s.mon.get('gone', ())]
                if fn == 'empty':
                    t = v if isinstance(v, int) else E.truth_of(s, v)
                    ob('law', kind == 'ret' and t == int(n == 0), "empty() must say whether there are no accounts")
                    continue
                U1 = ps[0]
                hit = [i for i in range(1, n + 1) if U1 in s.mon.get(('alias', i), ())]
                ob('looks up', all(k == U1 for i in range(1, n + 1) for k in s.mon.get(('alias', i), ())) and (hit or n == 0 or U1 in H.entries(s, 'cache')[2] or added), "looks up another name")
                failed = any(e[0].endswith('fails') for e in l)
                if kind == 'throw':
                    ob('throws', failed, "throws")
                    ob('nothing added', not added and not gone, "a refused digest changes the accounts")
                    continue
                t = v if isinstance(v, int) else None
                if fn in ('add_user', 'add_user_hash', 'update_user', 'update_user_hash', 'remove_user'):
                    t = t if t is not None else E.truth_of(s, v)
                    ob('answer', t == int(bool(hit) != fn.startswith('add')), "the answer does not tell whether the name was known")
                calls = [e for e in l if e[0] in ('new', 'set_password', 'set_password_hash', 'match_password')]
                if fn.startswith('add'):
                    if hit: ob('known name', not added and not gone and not [e for e in calls if e[0] != 'new'], "adding a known name changes its account")
                    else:
                        ob('added', len(added) == 1 and not gone and E.content(s, key_loc(added[0])) == U1, "adds other than the one account of the given name")
                        if len(added) == 1:
                            p = E.content(s, val_loc(added[0]))
                            o, o1 = app('user', U1, *ps[1:] if fn == 'add_user' else (), tag='o'), app('user', U1, tag='o')
                            want = [('new', U1, ps[1])] if fn == 'add_user' else [('new', U1), ('set_password_hash', o1, ps[1])]
                            alt = [('new', U1), ('set_password', o1, ps[1])] if fn == 'add_user' else None
                            ob('credentials', calls in (want, alt), "the account is not created with the given name and credentials")
                            ob('account', E.content(s, E.deref(p)) == (o1 if calls == alt else o), "the name is not bound to the new account")
                elif fn.startswith('update'):
                    ob('unchanged', not added and not gone, "adds or removes accounts")
                    acc = E.deref(init(('account', hit[0]), 'p')) if hit else None
                    want = [('set_password' + ('_hash' if 'hash' in fn else ''), acc, ps[1])] if hit else []
                    ob('updated', calls == want, "does not give the named account, and only it, the new credentials")
                elif fn == 'remove_user': ob('removed', not added and gone == hit and not calls, "does not remove the named account, and only it")
                elif fn == 'get_user':
                    c = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
                    ob('unchanged', not added and not gone, "adds or removes accounts")
                    if na == 1: ob('found', c == (init(('account', hit[0]), 'p') if hit else 0), "does not return the named account, or null if there is none")
                    else:
                        m = [e for e in calls if e[0] == 'match_password']
                        ob('asks', bool(m) == bool(hit) and all(e[1] == E.deref(init(('account', hit[0]), 'p')) and e[2] == ps[1] for e in m), "does not match the given password against the named account")
                        good = bool(hit) and any(e[3] for e in m)
                        ob('found', c == (init(('account', hit[0]), 'p') if good else 0), "returns an account whose password was not matched, or refuses one whose password was")
    return total


def users(prog, R, tier):
    R.rule("constant propagation through the password code with the digest function opaque: digests covering every byte value, every single differing byte, every length class; the account table interpreted abstractly over up to 2 accounts, every outcome of look-up, password match and digest refusal")
    R.assumptions += ["OpenSSL's SHA256 and SHA1 compute the digests", "given digests consist of hexadecimal digits"]
    a, b = passwords(prog, R), manager(prog, R)
    R.count('password cases', a)
    R.count('exits of the account table', b)
    R.floor('cases examined', a + b, 200)


# ------------------------------------------------------------------ C33 text in pages
class TX(Scen):
    """every text given to a response writer is inspected where it is written"""
    max_states = 20000
    unroll = 0

    def __init__(self, f, R):
        Scen.__init__(self)
        self.f, self.R, self.sites = f, R, set()

    def seen(self, E, S, fr, n, v, raw):
        c = E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        self.sites.add((fr.f['sfn'] if hasattr(fr, 'f') else '', n.get('l')))
        ct = S.mon.get('ctype')
        plain = isinstance(ct, tuple) and ct[0] == 'str' and ct[1].lower().startswith('text/plain')
        num = isinstance(raw, str) and base_type(raw) in SCALARS and not base_type(raw).endswith('*')
        self.R.ob('%s:encoded' % self.f['sfn'].split('::', 1)[1], plain or num or clean(c), where(self.f, n.get('l')), "writes text into a page that is neither constant nor XML-encoded (%s)" % (str(c)[:160],), S.path())

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        pts = n.get('pt') or []
        if nm == 'operator<<' and len(a) == 2 and pts and 'pion::http::' in pts[0] and 'writer' in pts[0]:
            self.seen(E, S, fr, n, a[1], pts[1]); return [(S, a[0])]
        if nm in ('write', 'write_no_copy') and strip_targs(cls).startswith('pion::http::') and 'writer' in cls and len(a) == 1:
            self.seen(E, S, fr, n, a[0], pts[0]); return [(S, 0)]
        if nm == 'set_content_type' and cls.startswith('pion::http::'):
            S.mon['ctype'] = sc(a[0]); return [(S, 0)]
        if nm == 'xml_encode': return [(S, E.tmp(S, fr, nid, app('xml', sc(a[0]))))]
        if n.get('inroot') and not self.takes_writer(n, info): return None
        return None

    def takes_writer(self, n, info):
        return 'writer' in ' '.join(n.get('pt') or [])

    def inline(self, E, S, fr, n, info, target):
        # only helpers that are handed a writer, or that make texts, matter
        pts = ' '.join(n.get('pt') or [])
        return 'writer' in pts or 'basic_string' in n.get('type', '')


from ..eng import base_type, SCALARS


def pages(prog, R, tier):
    R.rule("every function that makes a response writer is interpreted abstractly; at each place where text is given to the writer while the content type is not plain text, the text must consist of constants, numbers and results of the XML encoder")
    R.assumptions += ["xml_encode itself is C21", "writers and content types are followed inside one function and the helpers it hands the writer to"]
    n = 0
    for f in sorted((f for f in prog.funcs.values() if 'blocks' in f), key=lambda f: f['sfn']):
        if not any(x['k'] == 'call' and x.get('nm') == 'create' and (x.get('cls') or '').startswith('pion::http::response_writer') for x in f['nodes'] if x): continue
        H = TX(f, R); E = Engine(prog, H)
        fr, ex = E.entry(f, this=this)
        R.engine(E)
        n += len(H.sites)
        R.count('functions that answer', 1)
    R.count('places that write text', n)
    R.floor('places that write text', n, 20)
