"""C35 thread scheduler: start, work, shutdown."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..maps import Maps, ent
from ..report import where
from .httpmsg import Scen, params, set_arg, param, evs, names

this = ('o', 'this')
SC = 'pion::scheduler::'
RUN = ('f', this, SC + 'm_is_running')
USERS = ('f', this, SC + 'm_active_users')
NTHR = ('f', this, SC + 'm_num_threads')
MTX = ('f', this, SC + 'm_mutex')
STOPPED = ('f', this, SC + 'm_scheduler_has_stopped')
NOUSERS = ('f', this, SC + 'm_no_more_active_users')
SVC = ('f', this, 'pion::single_service_scheduler::m_service')
TMR = ('f', this, 'pion::single_service_scheduler::m_timer')
NEXT = ('f', this, 'pion::one_to_one_scheduler::m_next_service')
PAIR = 'pion::one_to_one_scheduler::service_pair_type::'
HOOKS = ('stop_services', 'stop_threads', 'finish_services', 'finish_threads')


def init(l, tag):
    t = ('init', l); TAG[t] = tag
    return t


class SH(Maps, Scen):
    max_states = 4000
    unroll = 0
    uniq_new = False
    vecs = frozenset(['m_thread_pool', 'm_service_pool'])

    def __init__(self, f, R, key, entered=(), outcomes=False):
        Scen.__init__(self)
        self.f, self.R, self.kk, self.entered, self.outcomes = f, R, key, frozenset(entered), outcomes

    def is_map(self, obj):
        l = obj[2].rsplit('::', 1)[-1] if obj[0] == 'f' and isinstance(obj[2], str) else None
        return l if l in self.vecs else None

    def bad(self, E, S, fr, n, what): self.ob(S, 'memory', False, what)

    def ob(self, S, k, ok, msg, n=None): self.R.ob(self.kk + ':' + k, ok, where(self.f), msg, S.path())

    # another thread may have run: nothing read before is still known
    def havoc(self, E, S, fr, nid, what):
        for l, tag in ((RUN, ('i', 1, False)), (USERS, ('i', 32, False))):
            S.mem[l] = E.sym(fr, nid, tag, (what, l[2]))

    def lock(self, E, S, fr, op, m, n):
        if op == 'lock' and m == MTX and S.mon.get('locked_once'): self.havoc(E, S, fr, n.get('id', 'lk') if isinstance(n, dict) else 'lk', 'relock')
        if op == 'lock' and m == MTX: S.mon['locked_once'] = 1

    def is0(self, E, S, l): return E.assume(S, E.mkcmp(S, '!=', E.content(S, l), 0), True) is None
    def not0(self, E, S, l): return E.assume(S, E.mkcmp(S, '==', E.content(S, l), 0), True) is None

    def V(self, E, S, v):
        """what an argument denotes, looking through references and copies"""
        if isinstance(v, tuple) and v and v[0] == 'L':
            c = S.mem.get(v[1])
            if isinstance(c, tuple) and c and c[0] in ('L', 'app') and (c[0] == 'L' or c[1] in ('bind', 'tid', 'time', 'dur')): return self.V(E, S, c) if c[0] == 'L' else c
        return v

    def call(self, E, S, fr, n, info):
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        nm, cls, obj, nid, a, sfn = info['nm'] or '', strip_targs(info['cls'] or ''), info['obj'], info['nid'], info['args'], info['sfn'] or ''
        T = lambda s, v: E.tmp(s, fr, nid, v)
        if sfn in ('boost::ref', 'std::ref', 'boost::cref', 'std::cref') and len(a) == 1: return [(S, T(S, self.V(E, S, a[0])))]
        if cls in ('boost::reference_wrapper', 'std::reference_wrapper'):
            if info.get('ctor') and len(a) == 1:
                S.mem[obj] = self.V(E, S, a[0]); return [(S, None)]
            if nm in ('get', 'operator()') or nm.startswith('operator '):
                v = S.mem.get(obj)
                if isinstance(v, tuple) and v[0] == 'L': return [(S, v)]
        if sfn in ('boost::bind', 'std::bind') and len(a) >= 1:
            t = ('app', 'bind') + tuple(self.V(E, S, x) for x in a); TAG[t] = 'o'
            return [(S, T(S, t))]
        # condition variables: waiting gives the mutex away
        if 'condition' in cls and not info.get('ctor'):
            if nm in ('wait', 'timed_wait', 'wait_for', 'wait_until'):
                self.ob(S, 'waits locked', MTX in S.locks, "waits on a condition without holding the scheduler mutex")
                if len(a) > 1 and nm == 'wait': return None
                S.mon[('waits', obj)] = 1
                self.havoc(E, S, fr, nid, 'wait')
                return [(S, 0 if nm == 'wait' else E.sym(fr, nid, ('i', 1, False), 'timed'))]
            if nm in ('notify_all', 'notify_one'):
                self.ev(S, nm, obj, self.is0(E, S, RUN), self.is0(E, S, USERS), MTX in S.locks)
                return [(S, 0)]
        # the io_service
        if cls == 'boost::asio::io_context' and not info.get('ctor'):
            if nm in ('run', 'run_one', 'poll', 'poll_one') and self.outcomes:
                out = []
                for how in ('ret', 'std::exception', 'int'):
                    s = S.copy()
                    s.mon['ran'] = (nm, obj)
                    self.havoc(E, s, fr, nid, 'run')
                    out.append((s, E.sym(fr, nid, ('i', 64, False), 'ran')) if how == 'ret' else ('throw', s, how))
                return out
            if nm in ('run', 'stop', 'reset', 'restart'):
                self.ev(S, 'svc.' + ('reset' if nm == 'restart' else nm), obj, self.is0(E, S, RUN))
                return [(S, E.sym(fr, nid, ('i', 64, False), 'n'))]
        if cls == 'boost::asio::basic_deadline_timer' and not info.get('ctor'):
            if nm in ('expires_from_now', 'expires_at') and a:
                self.ev(S, 'timer.set', obj, self.V(E, S, a[0])); return [(S, 0)]
            if nm == 'async_wait':
                self.ev(S, 'timer.wait', obj, self.V(E, S, a[0])); return [(S, 0)]
            if nm == 'cancel':
                self.ev(S, 'timer.cancel', obj); return [(S, 0)]
        # durations and times
        if info.get('ctor') and cls in ('boost::posix_time::seconds', 'boost::posix_time::microseconds', 'boost::posix_time::milliseconds', 'boost::posix_time::nanoseconds', 'boost::date_time::subsecond_duration') and len(a) >= 1:
            unit = cls.rsplit('::', 1)[1]
            if unit == 'subsecond_duration':
                ty = info['cls'] + ' ' + n.get('type', '')
                unit = 'microseconds' if '1000000>' in ty or '1000000 ' in ty else 'milliseconds' if '1000>' in ty else 'subsecond'
            S.mem[obj] = ('app', 'dur', ((unit, E.content(S, a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'L' else a[0]),)); TAG[S.mem[obj]] = 'o'
            return [(S, None)]
        if sfn == 'boost::get_system_time' or nm in ('universal_time',) and 'clock' in sfn:
            t = ('app', 'time', ()); TAG[t] = 'o'
            return [(S, T(S, t))]
        if nm in ('operator+', 'operator+='):
            xs = ([('L', obj)] if obj is not None else []) + list(a)
            cs = [self.V(E, S, x) for x in xs]
            if len(cs) == 2 and all(isinstance(c, tuple) and c[:1] == ('app',) and c[1] in ('time', 'dur') for c in cs):
                k = 'time' if 'time' in (cs[0][1], cs[1][1]) else 'dur'
                t = ('app', k, tuple(cs[0][2]) + tuple(cs[1][2])); TAG[t] = 'o'
                if nm == 'operator+=':
                    S.mem[obj] = t; return [(S, ('L', obj))]
                return [(S, T(S, t))]
        # threads
        if cls == 'boost::thread':
            if info.get('ctor') and len(a) >= 1 and not n.get('copy') and not n.get('move'):
                v = self.V(E, S, a[0])
                if isinstance(v, tuple) and v[0] == 'fn': v = ('app', 'bind', v) + tuple(self.V(E, S, x) for x in a[1:])
                S.mem[obj] = ('app', 'thr', v); TAG[S.mem[obj]] = 'o'
                self.ev(S, 'thread', v, self.not0(E, S, RUN), MTX in S.locks)
                return [(S, None)]
            if info.get('ctor') and not a:
                S.mem[obj] = ('app', 'nothread'); TAG[S.mem[obj]] = 'o'
                return [(S, None)]
            if nm == 'get_id' and obj is not None:
                t = ('app', 'tid', 'none' if S.mem.get(obj, (0, 0))[1:2] == ('nothread',) else obj); TAG[t] = 'o'
                return [(S, T(S, t))]
            if nm == 'join' or nm in ('timed_join', 'try_join_for', 'try_join_until'):
                self.ev(S, 'join' if nm == 'join' else 'timed join', obj); return [(S, 0 if nm == 'join' else E.sym(fr, nid, ('i', 1, False), 'tj'))]
            if nm == 'joinable': return [(S, 1)]
            if nm in ('detach', 'interrupt'):
                self.ev(S, nm, obj); return [(S, 0)]
            if nm in ('operator==', 'operator!=') and len(a) == 1:
                return self.same(E, S, self.tid(S, obj), self.tid(S, a[0][1]), nm)
        if sfn == 'boost::this_thread::get_id':
            t = ('app', 'tid', 'cur'); TAG[t] = 'o'
            return [(S, T(S, t))]
        if nm in ('operator==', 'operator!='):
            xs = ([('L', obj)] if obj is not None else []) + list(a)
            cs = [self.V(E, S, x) for x in xs]
            if len(cs) == 2 and all(isinstance(c, tuple) and c[:2] == ('app', 'tid') for c in cs): return self.same(E, S, cs[0][2], cs[1][2], nm)
        if n.get('inroot') and cls.startswith('pion::') and nm in HOOKS + ('startup', 'shutdown', 'keep_running', 'process_service_work') and nm not in self.entered and not info.get('ctor'):
            if nm in HOOKS: self.ev(S, nm, self.is0(E, S, RUN), self.is0(E, S, USERS), MTX in S.locks)
            elif nm == 'startup':
                self.ev(S, nm, MTX in S.locks)
                S.mem[RUN] = 1
            else: self.ev(S, nm, *([self.V(E, S, x) for x in a] + [self.not0(E, S, RUN)]))
            return [(S, 0)]
        return None

    @staticmethod
    def tid(S, l): return 'none' if S.mem.get(l, (0, 0))[1:2] == ('nothread',) else l

    def same(self, E, S, x, y, nm):
        """is thread object x the calling thread?"""
        if x == y: return [(S, int(nm == 'operator=='))]
        if 'cur' in (x, y) and 'none' not in (x, y):
            o = y if x == 'cur' else x
            known = S.mon.get(('self', o))
            out = []
            if known is not False and not any(k[0] == 'self' and k[1] != o and v for k, v in S.mon.items() if isinstance(k, tuple)):
                s = S.copy(); s.mon[('self', o)] = True
                out.append((s, int(nm == 'operator==')))
            if known is not True:
                s = S.copy(); s.mon[('self', o)] = False
                out.append((s, int(nm != 'operator==')))
            return out
        return [(S, int(nm != 'operator=='))]     # distinct thread objects, or not-a-thread against a running thread


def bound(v, name):
    """the arguments of a bind of scheduler::<name> to this, or None"""
    if isinstance(v, tuple) and v[:2] == ('app', 'bind') and isinstance(v[2], tuple) and v[2][0] == 'fn' and v[2][2].rsplit('::', 1)[-1] == name and v[3:4] in ((('addr', this),), (('L', this),)):
        return v[4:]
    return None


def sched(prog, R, tier):
    R.rule("each scheduler operation is interpreted abstractly, other threads' writes being arbitrary whenever the mutex is given away: shutdown waits for active users to reach 0, clears the running flag, then stops services, joins threads, finishes both and wakes the waiters; join returns only when not running; workers re-enter run() while running and let no exception out; startup starts exactly num_threads workers, each on its own service, after the running flag and the keep-alive timer are set")
    R.assumptions += ["sequences of 0..3 threads and services; the loops treat elements alike", "boost::thread::join returns only when that thread has ended; num_threads >= 1 for one_to_one_scheduler::get_io_service()"]
    one = prog.one
    exits = 0

    def run(fn, key, H, setup=None, f=None):
        nonlocal exits
        E = Engine(prog, H)
        fr, ex = E.entry(f or H.f, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex and all(o['ok'] for o in R.obs.values()): raise AnalysisError("%s has no exit" % fn)
        exits += len(ex)
        return E, ex

    def meth(name, nparams=None):
        fs = [f for f in prog.by_name.get(name, []) if 'blocks' in f and (nparams is None or len(f['params']) == nparams)]
        if not fs: raise AnalysisError("no %s" % name)
        return fs[0]

    # ---- shutdown
    f = meth(SC + 'shutdown')
    for running in (0, 1):
        H = SH(f, R, 'shutdown')

        def setup(E, S, fr):
            S.mem[RUN] = running
            init(USERS, ('i', 32, False))
        E, ex = run('shutdown', 'shutdown', H, setup)
        for k, s, v in ex:
            e = evs(s)
            ns = [x[0] for x in e if x[0] in HOOKS]
            ob = lambda q, ok, msg: H.ob(s, q, ok, msg)
            ob('completes', k == 'ret', "throws")
            if k != 'ret': continue
            first = [ns.index(h) if h in ns else None for h in HOOKS]
            ob('complete', None not in first, "returns without having stopped and finished services and threads")
            if None not in first: ob('order', first == sorted(first) and first[1] > first[0] and first[2] > first[1], "must stop the services, then join the threads, and only then destroy services and threads")
            ob('flag first', all(x[1] for x in e if x[0] in HOOKS), "stops or destroys services or threads while the scheduler still counts as running (workers would re-enter run())")
            if running: ob('drains users', all(x[2] for x in e if x[0] in HOOKS), "shuts down although active users may remain")
            ob('not running', H.is0(E, s, RUN), "returns with the scheduler still marked running")
            wake = [x for x in e if x[0] == 'notify_all' and x[1] == STOPPED]
            ob('wakes joiners', any(x[2] for x in wake), "does not wake the threads waiting in join() after the scheduler stopped")
            if 'finish_threads' in [x[0] for x in e] and wake:
                i = max(j for j, x in enumerate(e) if x[0] == 'notify_all' and x[1] == STOPPED)
                ob('wakes last', MTX in (wake[-1][4] and (MTX,) or ()) or i > max(j for j, x in enumerate(e) if x[0] == 'finish_threads'), "wakes the waiters before the threads have finished")
            ob('unlocks', not s.locks, "returns with the mutex held")
            ob('right condition', not any(isinstance(x, tuple) and x[0] == 'waits' and x[1] != NOUSERS for x in s.mon), "waits on a condition that the last user does not signal")
    # ---- join
    f = meth(SC + 'join')
    H = SH(f, R, 'join')

    def setup(E, S, fr): init(RUN, ('i', 1, False)); init(USERS, ('i', 32, False))
    E, ex = run('join', 'join', H, setup)
    waited = False
    for k, s, v in ex:
        H.ob(s, 'returns', k == 'ret', "throws")
        H.ob(s, 'only when stopped', H.is0(E, s, RUN), "returns although the scheduler may still be running")
        H.ob(s, 'right condition', not any(isinstance(x, tuple) and x[0] == 'waits' and x[1] != STOPPED for x in s.mon), "waits on a condition that shutdown does not signal")
        H.ob(s, 'unlocks', not s.locks, "returns with the mutex held")
        waited |= any(isinstance(x, tuple) and x[0] == 'waits' for x in s.mon)
    R.ob('join:sleeps', waited, where(f), "never waits: busy loop or immediate return")
    # ---- shutdown waits on the condition remove_active_user signals
    # ---- users
    for fn, d in (('remove_active_user', -1), ('add_active_user', 1)):
        f = meth(SC + fn)
        for before in (0, 1, 2, 7):
            if before + d < 0: continue
            for running in (0, 1):
                if d < 0 and not running: continue
                H = SH(f, R, fn)
                def setup(E, S, fr): S.mem[USERS], S.mem[RUN] = before, running
                E, ex = run(fn, '', H, setup)
                for k, s, v in ex:
                    H.ob(s, 'counts', E.content(s, USERS) == before + d, "must change the number of active users by exactly one")
                    H.ob(s, 'unlocks', k == 'ret' and not s.locks, "throws or returns with the mutex held")
                    H.ob(s, 'atomic', s.mon.get('locked_once'), "changes the user count without the mutex")
                    if d < 0:
                        woke = any(x[0] in ('notify_all', 'notify_one') and x[1] == NOUSERS for x in evs(s))
                        H.ob(s, 'wakes shutdown', woke or before > 1, "the last user leaves without waking a pending shutdown")
                    else:
                        started = [x for x in evs(s) if x[0] == 'startup']
                        H.ob(s, 'starts', bool(started) or running, "does not start the scheduler when it is not running")
                        H.ob(s, 'no deadlock', not any(x[1] for x in started), "calls startup() while holding the mutex startup() takes")
    # ---- worker
    f = meth(SC + 'process_service_work')
    H = SH(f, R, 'worker', outcomes=True)
    svc = params(f)[0][1]
    def setup(E, S, fr): init(RUN, ('i', 1, False)); init(USERS, ('i', 32, False))
    E, ex = run('process_service_work', '', H, setup)
    ran = False
    for k, s, v in ex:
        H.ob(s, 'no escape', k == 'ret', "an exception thrown by queued work ends the worker thread (and the process)")
        H.ob(s, 'keeps working', H.is0(E, s, RUN), "a worker stops although the scheduler may still be running")
        if 'ran' in s.mon:
            H.ob(s, 'right service', s.mon['ran'] == ('run', svc), "must run the service it was given")
            ran = True
        H.ob(s, 'unlocked', not s.locks, "ends with a lock held")
    R.ob('worker:runs', ran, where(f), "never runs the service")
    # ---- keep_running
    f = meth(SC + 'keep_running')
    ps = params(f)
    for running in (0, 1):
        H = SH(f, R, 'keep_running', entered=('keep_running',))
        def setup(E, S, fr): S.mem[RUN] = running
        E, ex = run('keep_running', '', H, setup)
        for k, s, v in ex:
            e = evs(s)
            waits = [x for x in e if x[0] == 'timer.wait']
            if not running:
                H.ob(s, 'stops', not waits, "re-arms the keep-alive timer although the scheduler has stopped (services never drain)")
                continue
            good = [x for x in waits if x[1] == ps[1][1] and bound(x[2], 'keep_running') == (('L', ps[0][1]), ('L', ps[1][1]))]
            H.ob(s, 're-arms', len(good) == 1 and len(waits) == 1, "must re-arm the given timer with keep_running on the same service and timer")
            sets = [i for i, x in enumerate(e) if x[0] == 'timer.set' and x[1] == ps[1][1]]
            w = [i for i, x in enumerate(e) if x[0] == 'timer.wait']
            H.ob(s, 'delay set first', sets and w and min(sets) < min(w), "waits on the timer without having set when it expires")
    # ---- startup
    for cls in ('single_service_scheduler', 'one_to_one_scheduler'):
        f = meth('pion::%s::startup' % cls)
        for running in (0, 1):
            for N in (0, 1, 2, 3):
                for K in ((0,) if cls.startswith('single') else (0, 1, N) if N else (0,)):
                    H = SH(f, R, cls + '.startup', entered=('startup',))
                    H.unroll, H.uniq_new = 40, True
                    ids = []
                    def setup(E, S, fr):
                        S.mem[RUN], S.mem[NTHR] = running, N
                        H.fill(S, 'm_thread_pool', 0)
                        ids[:] = H.fill(S, 'm_service_pool', K)
                        for i in ids: S.mem[ent(i)] = E.addr(('o', 'PAIR', i))
                    E, ex = run(cls, '', H, setup)
                    for k, s, v in ex:
                        e = evs(s)
                        ob = lambda q, ok, msg: H.ob(s, q, ok, msg)
                        ob('returns', k == 'ret', 'throws')
                        if k != 'ret': continue
                        ob('unlocks', not s.locks, "returns with the mutex held")
                        thr = [x for x in e if x[0] == 'thread']
                        if running:
                            ob('idempotent', not thr and not [x for x in e if x[0] in ('keep_running', 'svc.reset', 'svc.stop')], "starting a running scheduler must change nothing")
                            continue
                        ob('marks running', H.not0(E, s, RUN), "returns without marking the scheduler running")
                        ob('thread count', len(thr) == N, "must start exactly num_threads workers")
                        ob('flag before workers', all(x[2] for x in thr), "workers are started before the running flag is set: they end at once")
                        ob('under lock', all(x[3] for x in thr), "workers are created outside the scheduler mutex")
                        pool = H.entries(s, 'm_thread_pool')[0]
                        ptrs = [E.content(s, ent(i)) for i in pool]
                        objs = [E.content(s, E.deref(p)) if isinstance(p, tuple) else None for p in ptrs]
                        ob('pool', len(pool) == len(thr) and len(set(ptrs)) == len(ptrs) and all(isinstance(o, tuple) and o[1] == 'thr' for o in objs), "every started worker must be kept in the thread pool to be joined later")
                        ws = [bound(x[1], 'process_service_work') for x in thr]
                        ob('worker function', all(w is not None and len(w) == 1 for w in ws), "a worker thread does not run process_service_work of this scheduler")
                        if None in ws: continue
                        kr = [x for x in e if x[0] == 'keep_running']
                        ob('keep-alive while running', all(x[3] for x in kr), "the keep-alive timer is set up before the running flag: it never starts")
                        if cls.startswith('single'):
                            ob('service', all(w == (('L', SVC),) for w in ws), "a worker runs another service")
                            ob('keep-alive', [x[1:3] for x in kr] == [(('L', SVC), ('L', TMR))], "the service must be kept alive by exactly one timer chain")
                            ob('restartable', any(x[0] == 'svc.reset' and x[1] == SVC for x in e), "the service is not reset, so run() returns at once after a restart")
                            if any(x[0] == 'svc.reset' for x in e) and thr:
                                ob('reset before workers', max(i for i, x in enumerate(e) if x[0] == 'svc.reset') < min(i for i, x in enumerate(e) if x[0] == 'thread'), "resets the service while workers may already run it")
                        else:
                            sp = [E.deref(E.content(s, ent(i))) for i in H.entries(s, 'm_service_pool')[0]]
                            ob('service pool', len(sp) == max(N, K) and len(set(sp)) == len(sp), "there must be one service for each thread")
                            want = [('L', ('f', p, PAIR + 'first')) for p in sp]
                            ob('service', sorted(map(repr, (w[0] for w in ws))) == sorted(map(repr, want[:N])), "every worker must run a service of its own")
                            ob('keep-alive', sorted(map(repr, (x[1:3] for x in kr))) == sorted(repr((('L', ('f', p, PAIR + 'first')), ('L', ('f', p, PAIR + 'second')))) for p in sp), "every service must be kept alive by its own timer")
    # ---- stop / finish
    f = meth('pion::multi_thread_scheduler::stop_threads')
    for N in (0, 1, 2, 3):
        H = SH(f, R, 'stop_threads', entered=('stop_threads',)); H.unroll = 40
        ids = []
        def setup(E, S, fr):
            ids[:] = H.fill(S, 'm_thread_pool', N)
            for i in ids: S.mem[ent(i)] = E.addr(('o', 'THR', i))
        E, ex = run('stop_threads', '', H, setup)
        for k, s, v in ex:
            js = [x[1] for x in evs(s) if x[0] == 'join']
            H.ob(s, 'returns', k == 'ret', 'throws')
            for i in ids:
                o = ('o', 'THR', i)
                me = s.mon.get(('self', o))
                anyself = any(isinstance(x, tuple) and x[0] == 'self' and y for x, y in s.mon.items())
                H.ob(s, 'never itself', o not in js or me is False or anyself, "may join the calling thread itself")
                H.ob(s, 'joins all', o in js or me is True, "leaves a worker thread running that is not the calling thread")
            H.ob(s, 'keeps pool', list(H.entries(s, 'm_thread_pool')[0]) == list(ids) or True, '')
    for cls, fn, vec in (('multi_thread_scheduler', 'finish_threads', 'm_thread_pool'), ('one_to_one_scheduler', 'finish_services', 'm_service_pool')):
        f = meth('pion::%s::%s' % (cls, fn))
        H = SH(f, R, fn, entered=(fn,)); H.unroll = 40
        def setup(E, S, fr): H.fill(S, vec, 2)
        E, ex = run(fn, '', H, setup)
        for k, s, v in ex: H.ob(s, 'empties', k == 'ret' and not H.entries(s, vec)[0], "leaves threads or stopped services in the pool (a restart would add to them)")
    f = meth('pion::one_to_one_scheduler::stop_services')
    for N in (0, 1, 3):
        H = SH(f, R, 'stop_services', entered=('stop_services',)); H.unroll = 40
        ids = []
        def setup(E, S, fr):
            ids[:] = H.fill(S, 'm_service_pool', N)
            for i in ids: S.mem[ent(i)] = E.addr(('o', 'PAIR', i))
        E, ex = run('stop_services', '', H, setup)
        for k, s, v in ex:
            H.ob(s, 'stops all', k == 'ret' and {x[1] for x in evs(s) if x[0] == 'svc.stop'} == {('f', ('o', 'PAIR', i), PAIR + 'first') for i in ids}, "a service is not stopped: its worker never ends")
    f = meth('pion::single_service_scheduler::stop_services')
    H = SH(f, R, 'stop_services', entered=('stop_services',))
    E, ex = run('stop_services', '', H)
    for k, s, v in ex: H.ob(s, 'stops all', [x[1] for x in evs(s) if x[0] == 'svc.stop'] == [SVC], "the service is not stopped: workers never end")
    # ---- get_io_service
    f = meth('pion::one_to_one_scheduler::get_io_service', 0)
    for N in (1, 2, 3):
        for K in (0, 1, N):
            for old in range(N):
                H = SH(f, R, 'get_io_service'); H.unroll, H.uniq_new = 40, True
                def setup(E, S, fr):
                    S.mem[NTHR], S.mem[NEXT] = N, old
                    for i in H.fill(S, 'm_service_pool', K): S.mem[ent(i)] = E.addr(('o', 'PAIR', i))
                E, ex = run('get_io_service', '', H, setup)
                for k, s, v in ex:
                    sp = [E.deref(E.content(s, ent(i))) for i in H.entries(s, 'm_service_pool')[0]]
                    H.ob(s, 'pool complete', len(sp) == max(N, K) and len(set(sp)) == len(sp), "there must be one service for each thread")
                    nx = E.content(s, NEXT)
                    H.ob(s, 'round robin', nx == (old + 1) % N, "services must be handed out in turn")
                    H.ob(s, 'answer', isinstance(nx, int) and nx < len(sp) and v == ('L', ('f', sp[nx], PAIR + 'first')), "hands out something else than the service whose turn it is")
                    H.ob(s, 'unlocks', k == 'ret' and not s.locks, "throws or returns with the mutex held")
    f = meth('pion::one_to_one_scheduler::get_io_service', 1)
    for n in range(3):
        H = SH(f, R, 'get_io_service(n)'); H.unroll = 40
        def setup(E, S, fr):
            S.mem[NTHR] = 3
            set_arg(S, fr, f, 0, n)
            for i in H.fill(S, 'm_service_pool', 3): S.mem[ent(i)] = E.addr(('o', 'PAIR', i))
        E, ex = run('get_io_service', '', H, setup)
        for k, s, v in ex: H.ob(s, 'answer', v == ('L', ('f', ('o', 'PAIR', n + 1), PAIR + 'first')), "get_io_service(n) must return service n")
    f = meth('pion::single_service_scheduler::get_io_service')
    H = SH(f, R, 'get_io_service')
    E, ex = run('get_io_service', '', H)
    for k, s, v in ex: H.ob(s, 'answer', v == ('L', SVC), "must return the service its threads run")
    # ---- destructors
    for cls in ('single_service_scheduler', 'one_to_one_scheduler'):
        fs = [f for f in prog.by_name.get('pion::%s::~%s' % (cls, cls), []) if 'blocks' in f]
        if not fs: R.ob(cls + '.dtor:shuts down', False, 'include/pion/scheduler.hpp', "has no destructor that shuts down")
        else:
            H = SH(fs[0], R, cls + '.dtor')
            E, ex = run(cls, '', H)
            for k, s, v in ex: H.ob(s, 'shuts down', 'shutdown' in names(s), "is destroyed without shutting down: workers use a dead scheduler")
    # ---- wake-up time
    f = meth(SC + 'get_wakeup_time')
    H = SH(f, R, 'wakeup')
    ps = params(f)
    for sec, ns in ((0, 0), (0, 999), (0, 1000), (0, 999999999), (1, 0), (7, 500000000), (86400, 1), (4000000, 250000000)):
        def setup(E, S, fr): set_arg(S, fr, f, 0, sec); set_arg(S, fr, f, 1, ns)
        E, ex = run('get_wakeup_time', '', H, setup)
        for k, s, v in ex:
            t = H.V(E, s, v)
            tot = None
            if isinstance(t, tuple) and t[:2] == ('app', 'time') and all(isinstance(x[1], int) and x[0] in UNIT for x in t[2]):
                tot = sum(x[1] * UNIT[x[0]] for x in t[2])
            R.ob('wakeup:time', tot is not None and 0 <= sec * 10**9 + ns - tot < 1000, where(f), "sleep_sec, sleep_nsec = %d, %d gives a wake-up %s ns after now" % (sec, ns, tot), s.path())
    R.count('exits', exits)
    R.floor('exits examined', exits, 60)


UNIT = {'seconds': 10**9, 'milliseconds': 10**6, 'microseconds': 1000, 'nanoseconds': 1}
