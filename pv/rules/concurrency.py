"""C01 guarded state, C02 no self-deadlock / lock-order inversion."""
from ..load import strip_targs, AnalysisError
from ..locks import LockFlow, ALL
from ..eng import base_type, is_ref, LOCKT
from ..report import where

# field -> (mutex, mode)   mode 'rw': every access; 'w': every modification
GUARDED = {
    'pion::plugin::config_type::m_plugin_map': ('pion::plugin::config_type::m_plugin_mutex', 'rw'),
    'pion::plugin::config_type::m_plugin_dirs': ('pion::plugin::config_type::m_plugin_mutex', 'rw'),
    'pion::plugin::data_type::m_references': ('pion::plugin::config_type::m_plugin_mutex', 'rw'),
    'pion::plugin_manager::m_plugin_map': ('pion::plugin_manager::m_plugin_mutex', 'rw'),
    'pion::scheduler::m_active_users': ('pion::scheduler::m_mutex', 'rw'),
    'pion::scheduler::m_is_running': ('pion::scheduler::m_mutex', 'w'),
    'pion::multi_thread_scheduler::m_thread_pool': ('pion::scheduler::m_mutex', 'rw'),
    'pion::one_to_one_scheduler::m_next_service': ('pion::scheduler::m_mutex', 'rw'),
    'pion::tcp::server::m_conn_pool': ('pion::tcp::server::m_mutex', 'rw'),
    'pion::tcp::server::m_is_listening': ('pion::tcp::server::m_mutex', 'w'),
    'pion::tcp::timer::m_timer_active': ('pion::tcp::timer::m_mutex', 'rw'),
    'pion::tcp::timer::m_was_cancelled': ('pion::tcp::timer::m_mutex', 'rw'),
    'pion::http::server::m_resources': ('pion::http::server::m_resource_mutex', 'rw'),
    'pion::http::server::m_redirects': ('pion::http::server::m_resource_mutex', 'rw'),
    'pion::http::auth::m_restrict_list': ('pion::http::auth::m_resource_mutex', 'rw'),
    'pion::http::auth::m_white_list': ('pion::http::auth::m_resource_mutex', 'rw'),
    'pion::http::basic_auth::m_user_cache': ('pion::http::basic_auth::m_cache_mutex', 'rw'),
    'pion::http::cookie_auth::m_user_cache': ('pion::http::cookie_auth::m_cache_mutex', 'rw'),
    'pion::http::basic_auth::m_cache_cleanup_time': ('pion::http::basic_auth::m_cache_mutex', 'rw'),
    'pion::http::cookie_auth::m_cache_cleanup_time': ('pion::http::cookie_auth::m_cache_mutex', 'rw'),
    'pion::http::cookie_auth::m_random_die': ('pion::http::cookie_auth::m_cache_mutex', 'rw'),
    'pion::user_manager::m_users': ('pion::user_manager::m_mutex', 'rw'),
    'pion::process::config_type::shutdown_now': ('pion::process::config_type::shutdown_mutex', 'rw'),
    'pion::tcp::stream_buffer::m_async_error': ('pion::tcp::stream_buffer::m_async_mutex', 'w'),
    'pion::tcp::stream_buffer::m_bytes_transferred': ('pion::tcp::stream_buffer::m_async_mutex', 'w'),
    'pion::plugins::FileService::m_cache_map': ('pion::plugins::FileService::m_cache_mutex', 'rw'),
    'pion::plugins::LogServiceAppender::m_log_events': ('pion::plugins::LogServiceAppender::m_log_mutex', 'rw'),
    'pion::plugins::LogServiceAppender::m_num_events': ('pion::plugins::LogServiceAppender::m_log_mutex', 'rw'),
}


def accesses(f):
    """(node id of mem, is_write) for every field mention"""
    nodes = f['nodes']
    wr = set()

    def root(i):
        x = nodes[i]
        while True:
            if x['k'] == 'mem':
                wr.add(i); return
            if x['k'] in ('cast', 'load'): i = x['a']; x = nodes[i]; continue
            if x['k'] == 'idx': i = x['base']; x = nodes[i]; continue
            return
    for n in nodes:
        if n['k'] == 'asg': root(n['a'])
        elif n['k'] == 'un' and n['op'] in ('++', '--', '&'): root(n['a'])
        elif n['k'] in ('call', 'ctor'):
            if 'obj' in n and not n.get('cm') and not n.get('oarrow'): root(n['obj'])
            for i, a in enumerate(n.get('args', [])):
                t = n.get('pt', [])[i] if i < len(n.get('pt', [])) else ''
                if is_ref(t) and not t.startswith('const '): root(a)
        elif n['k'] == 'decl':
            for v in n['vars']:
                if 'init' in v and is_ref(v['type']) and not v['type'].startswith('const '): root(v['init'])
    return wr


def guarded(prog, R, tier):
    R.rule("every access to a shared field listed with its guarding mutex happens at a program point where the interprocedural must-lockset contains that mutex (constructors/destructors exempt, non-public helpers inherit the intersection of their callers' locksets)")
    R.assumptions += ["locks are identified by mutex member, not by object instance", "boost/std lock types behave as documented"]
    lf = LockFlow(prog)
    found = set()
    known_fields = {strip_targs(x['fq']) for r in prog.records.values() for x in r['fields']}
    n_acc = 0
    for fid, f in lf.funcs.items():
        if f['kind'] in ('ctor', 'dtor') : continue
        mem = [n for n in f['nodes'] if n['k'] == 'mem' and strip_targs(n['fq']) in GUARDED]
        if not mem: continue
        wr = accesses(f)
        R.count('functions_touching_guarded_state')

        def v(e, n, must, may, f=f, wr=wr):
            nonlocal n_acc
            if n is None or n['k'] != 'mem': return
            fq = strip_targs(n['fq'])
            if fq not in GUARDED: return
            m, mode = GUARDED[fq]
            if mode == 'w' and e not in wr: return
            n_acc += 1
            found.add(fq)
            ok = must is ALL or m in must
            R.ob("%s:%s" % (f['sfn'], fq), ok, where(f, n),
                 "%s is %s without holding %s" % (fq, 'modified' if e in wr else 'accessed', m),
                 "locks certainly held here: %s" % (sorted(map(str, must)) if must is not ALL else 'n/a'))
        lf.flow(f, lf.entry_must[fid], lf.entry_may[fid], v)
    R.count('guarded_accesses', n_acc)
    R.stats['guarded_fields_seen'] = len(found)
    R.floor('guarded fields with accesses', len(found), 18)
    R.floor('guarded accesses', n_acc, 60)



# ---- C02 -------------------------------------------------------------------------
# work the library hands to code it does not control: never with one of its locks held
CALLBACK_VIRTUALS = {'pion::tcp::server::handle_connection', 'pion::http::plugin_service::operator()'}
FUNCTION_T = ('boost::function', 'std::function')
# callbacks documented to run inside the manager's critical section
ALLOWED_CALLBACKS = {'pion::plugin_manager::run', 'pion::plugin_manager::get_statistic'}


def root_of(lf, f, i, depth=0):
    """which object a mutex expression belongs to: this / static:<name> / other"""
    n = f['nodes'][i]
    if depth > 12: return 'other'
    if n['k'] == 'this': return 'this'
    if n['k'] in ('cast', 'load', 'un'): return root_of(lf, f, n['a'], depth + 1)
    if n['k'] == 'mem': return root_of(lf, f, n['base'], depth + 1)
    if n['k'] == 'glob': return 'static'
    if n['k'] == 'var':
        for m in f['nodes']:
            if m['k'] == 'decl':
                for v in m['vars']:
                    if v['var'] == n['var'] and 'init' in v and (is_ref(v['type']) or v['type'].rstrip().endswith('*')):
                        return root_of(lf, f, v['init'], depth + 1)
        return 'other'
    if n['k'] == 'call':
        if 'obj' not in n and not n.get('args'): return 'static'
        if n.get('obj') is not None and not n.get('args') and n.get('inroot') and root_of(lf, f, n['obj'], depth + 1) == 'this':
            return 'this'
    return 'other'


class Order:
    def __init__(self, lf):
        self.lf = lf
        self.binds = {}        # signature arity/types -> functions reachable through a stored function object
        self.scan_binds()
        self.calls = {}
        self.acqs = {}
        self.joins = {}
        self.cbs = {}
        for fid, f in lf.funcs.items(): self.scan(fid, f)
        self.summary()

    def scan_binds(self):
        self.bound = []        # (fid, [placeholder index or None per parameter])
        for f in self.lf.funcs.values():
            for n in f['nodes']:
                if n['k'] == 'call' and n.get('sfn') in ('boost::bind', 'std::bind') and n['args']:
                    a = f['nodes'][n['args'][0]]
                    while a['k'] in ('un', 'cast', 'load'): a = f['nodes'][a['a']]
                    if a['k'] not in ('func', 'memfn') or not a.get('fid'): continue
                    ph = []
                    for t in n['pt'][1:]:
                        j = t.find('boost::arg<')
                        ph.append(int(t[j + 11:t.index('>', j)]) if j >= 0 else None)
                    member = '::*)' in n['pt'][0]
                    obj = 'other'
                    if member and len(n['args']) > 1: obj = root_of(self.lf, f, n['args'][1])
                    self.bound.append((a['fid'], ph[1:] if member else ph, a.get('pt', [])))

    @staticmethod
    def norm(t):
        t = t.replace('const ', '').replace('&', '').strip()
        return t

    def function_targets(self, cls):
        """functions a boost::function of this type can hold, among those bound in the library"""
        j = cls.find('<')
        if j < 0: return set()
        parts, depth, cur = [], 0, ''
        for ch in cls[j + 1:-1]:
            if ch == '<': depth += 1
            if ch == '>': depth -= 1
            if ch == ',' and depth == 0: parts.append(cur.strip()); cur = ''
            else: cur += ch
        parts.append(cur.strip())
        if len(parts) == 1 and '(' in parts[0]:
            return set()
        args = [self.norm(x) for x in parts[1:]]
        out = set()
        for fid, ph, pt in self.bound:
            used = [p for p in ph if p]
            if len(set(used)) != len(args) : continue
            ok = True
            for i, p in enumerate(ph):
                if p and (p > len(args) or i >= len(pt) or self.norm(pt[i]) != args[p - 1]): ok = False
            if ok: out.add(fid)
        return out

    def scan(self, fid, f):
        lf = self.lf
        calls, acqs, joins, cbs = [], [], [], []
        roots = {}

        def v(e, n, must, may):
            if n is None: return
            if n['k'] == 'ctor' and (n.get('cls') or '').startswith(LOCKT) and not n.get('copy') and n['args']:
                if len(n['args']) > 1 and 'defer' in n['pt'][1]: return
                m = lf.mutex_of(f, n['args'][0])
                if isinstance(m, str) and m != '?':
                    r = root_of(lf, f, n['args'][0])
                    roots[m] = r
                    acqs.append((m, r, n, frozenset(may)))
            elif n['k'] == 'call' and n.get('nm') == 'lock' and n.get('obj') is not None:
                cls = n.get('cls') or ''
                if cls.startswith(LOCKT):
                    o = f['nodes'][n['obj']]
                    m = None
                    if o['k'] == 'var':
                        for d in f['nodes']:
                            if d['k'] == 'decl':
                                for x in d['vars']:
                                    if x['var'] == o['var'] and 'init' in x:
                                        c = f['nodes'][x['init']]
                                        if c['k'] == 'ctor' and c['args']:
                                            m = lf.mutex_of(f, c['args'][0]); r = root_of(lf, f, c['args'][0])
                    if isinstance(m, str) and m != '?': acqs.append((m, r, n, frozenset(may)))
                elif cls in ('boost::mutex', 'std::mutex'):
                    m = lf.mutex_of(f, n['obj'])
                    if isinstance(m, str) and m != '?': acqs.append((m, root_of(lf, f, n['obj']), n, frozenset(may)))
            elif n['k'] in ('call', 'ctor') and n.get('fid'):
                cls = n.get('cls') or ''
                ts = {t for t in lf.targets(n) if t in lf.funcs}
                o = 'other'
                if n.get('obj') is not None: o = root_of(lf, f, n['obj'])
                elif n['k'] == 'call' and n.get('sm') is None: o = 'none'
                if cls.startswith(FUNCTION_T) and n.get('nm') == 'operator()':
                    ts |= {t for t in self.function_targets(cls) if t in lf.funcs}
                    cbs.append((n, frozenset(may)))
                    o = 'other'
                elif n.get('virt') and not n.get('qual') and any(lf.p.funcs.get(t, {}).get('sfn') in CALLBACK_VIRTUALS for t in lf.targets(n) | {n['fid']}) or strip_targs(n.get('fn', '')) in CALLBACK_VIRTUALS:
                    cbs.append((n, frozenset(may)))
                if n.get('nm') == 'join' and cls.split('<')[0] in ('boost::thread', 'std::thread', 'boost::thread_group'):
                    joins.append((n, frozenset(may)))
                if ts: calls.append((n, ts, o, frozenset(may)))
        lf.flow(f, frozenset(), frozenset(), v)
        self.calls[fid], self.acqs[fid], self.joins[fid], self.cbs[fid] = calls, acqs, joins, cbs
        self.roots = getattr(self, 'roots', {})
        self.roots[fid] = roots

    def summary(self):
        """acquires[fid] : (mutex, root) -> witness path"""
        self.acq = {fid: {(m, r): "%s:%s" % (f['rel'], n['l']) for m, r, n, _ in self.acqs[fid]} for fid, f in self.lf.funcs.items()}
        self.join = {fid: bool(self.joins[fid]) for fid in self.lf.funcs}
        ch = True
        while ch:
            ch = False
            for fid, f in self.lf.funcs.items():
                me = self.acq[fid]
                for n, ts, o, _ in self.calls[fid]:
                    for t in ts:
                        if self.join.get(t) and not self.join[fid]: self.join[fid] = True; ch = True
                        for (m, r), w in self.acq[t].items():
                            k = (m, self.xlate(r, o))
                            if k not in me and len(w) < 600:
                                me[k] = "%s:%s %s -> %s" % (f['rel'], n['l'], self.lf.funcs[t]['sfn'].split('::')[-1], w); ch = True

    @staticmethod
    def xlate(r, o):
        if r == 'static': return r
        if r == 'this' and o == 'this': return 'this'
        return 'other'


def deadlock(prog, R, tier):
    R.rule("no path acquires a mutex the thread may already hold (call graph with virtual overriders and function objects bound inside the library; same mutex member of the same or an unknown object)")
    R.rule("the acquired-while-held relation between mutex members has no cycle")
    R.rule("no connection/request callback or application function object is invoked while a library mutex may be held")
    R.rule("no thread is joined while a library mutex may be held")
    R.assumptions += ["user code behind virtual hooks before_starting/after_stopping and plugin_manager::run callbacks is outside the claim",
                      "objects other than this are not distinguished"]
    lf = LockFlow(prog)
    O = Order(lf)
    edges = {}
    for fid, f in lf.funcs.items():
        for m, r, n, may in O.acqs[fid]:
            R.count('lock_acquisitions')
            R.ob("acq:%s:%s" % (f['sfn'], m), m not in may, where(f, n), "%s may already be held when it is acquired" % m)
            for h in may:
                if h != m and isinstance(h, str): edges.setdefault((h, m), where(f, n))
        for n, ts, o, may in O.calls[fid]:
            held = {(m, O.roots[fid].get(m, 'other')) for m in may if isinstance(m, str)}
            if not held: continue
            R.count('calls_with_lock_held')
            for t in sorted(ts):
                for (m, r), w in O.acq[t].items():
                    rr = O.xlate(r, o)
                    for h, hr in held:
                        if h == m:
                            bad = rr == hr or 'other' in (rr, hr)
                            R.ob("call:%s->%s:%s" % (f['sfn'], lf.funcs[t]['sfn'], m), not bad, where(f, n),
                                 "calls %s with %s held, which acquires it again" % (lf.funcs[t]['sfn'], m), w)
                        else: edges.setdefault((h, m), where(f, n) + ' -> ' + w)
                if O.join.get(t):
                    R.ob("join-under:%s" % ','.join(sorted(map(str, may))), False, where(f, n), "waits for threads to end (through %s) while holding %s" % (lf.funcs[t]['sfn'], sorted(may, key=str)))
            R.ob("call:%s:%s" % (f['sfn'], n.get('sfn')), True, where(f, n))
        for n, may in O.joins[fid]:
            R.count('thread_joins')
            R.ob("join:%s" % f['sfn'] if not may else "join-under:%s" % ','.join(sorted(map(str, may))), not may, where(f, n), "joins a thread while holding %s" % sorted(may, key=str))
        for n, may in O.cbs[fid]:
            R.count('callback_invocations')
            if f['sfn'] in ALLOWED_CALLBACKS: continue
            R.ob("callback:%s" % f['sfn'], not may, where(f, n), "invokes a handler supplied from outside while holding %s" % sorted(may, key=str))
    # cycles
    g = {}
    for (a, b) in edges: g.setdefault(a, set()).add(b)
    R.stats['lock_order_edges'] = len(edges)
    for (a, b), w in sorted(edges.items()):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += list(g.get(x, ()))
        R.ob("order:%s<%s" % (a, b), a not in seen, w, "%s is taken while %s is held, and elsewhere the other way round" % (b, a))
    R.floor('lock acquisitions', R.stats.get('lock_acquisitions', 0), 40)
    R.floor('callback invocations', R.stats.get('callback_invocations', 0), 8)
