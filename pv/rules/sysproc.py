"""C36 process control, C37 administrative rights."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG
from ..report import where
from .httpmsg import Scen, params, set_arg, evs, names

CFG = ('o', 'cfg')
CT = 'pion::process::config_type::'
NOW, COND, MUT = ('f', CFG, CT + 'shutdown_now'), ('f', CFG, CT + 'shutdown_cond'), ('f', CFG, CT + 'shutdown_mutex')
SIG = {13: 'SIGPIPE', 17: 'SIGCHLD', 20: 'SIGTSTP', 22: 'SIGTTOU', 21: 'SIGTTIN', 1: 'SIGHUP', 2: 'SIGINT', 15: 'SIGTERM'}


def init(l, tag):
    t = ('init', l); TAG[t] = tag
    return t


class PR(Scen):
    max_states = 4000

    def __init__(self, f, R, key, table=4):
        Scen.__init__(self)
        self.f, self.R, self.kk, self.table = f, R, key, table

    def ob(self, S, k, ok, msg): self.R.ob(self.kk + ':' + k, ok, where(self.f), msg, S.path())

    def lock(self, E, S, fr, op, m, n):
        if op == 'lock': S.mon['locked'] = S.mon.get('locked', ()) + (m,) if m not in S.mon.get('locked', ()) else S.mon['locked']

    def write(self, E, S, fr, loc, val, n):
        if loc == NOW: self.ob(S, 'flag under lock', MUT in S.locks, "sets the shutdown flag without holding the mutex: a waiter can miss the wake-up")

    def call(self, E, S, fr, n, info):
        nm, cls, obj, nid, a, sfn = info['nm'] or '', strip_targs(info['cls'] or ''), info['obj'], info['nid'], info['args'], info['sfn'] or ''
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else v
        if sfn in ('boost::call_once', 'std::call_once'):
            S.mon['once'] = tuple(x[2] if isinstance(x, tuple) and x[0] == 'fn' else x for x in a)
            S.mem[('g', 'pion::process::m_config_ptr')] = E.addr(CFG)
            return [(S, 0)]
        if 'condition' in cls and not info.get('ctor'):
            if nm in ('wait', 'timed_wait'):
                self.ob(S, 'waits locked', MUT in S.locks and obj == COND, "waits on another condition, or without the mutex")
                S.mon['slept'] = 1
                if obj == COND or True: S.mem[NOW] = E.sym(fr, nid, ('i', 1, False), 'woken')
                return [(S, 0)]
            if nm in ('notify_all', 'notify_one'):
                self.ev(S, nm, obj, E.content(S, NOW)); return [(S, 0)]
        if sfn == 'signal' and len(a) == 2:
            h = a[1]
            if isinstance(h, tuple) and h[0] == 'L' and h[1][0] == 'fn': h = h[1]
            S.mon[('sig', a[0])] = h if not isinstance(h, tuple) else ('fn', h[2]) if h[0] == 'fn' else h
            return [(S, 0)]
        if sfn == 'getppid':
            s2 = S.copy(); s2.mon['orphan'] = 1
            t = E.sym(fr, nid, ('i', 32, True), 'ppid')
            S.setint(t, ((2, 1 << 22),))
            return [(S, t), (s2, 1)]
        if sfn == 'fork':
            out = []
            for who, v in (('error', -1), ('parent', 4321), ('child', 0)):
                s = S.copy(); s.mon['fork'] = who; self.ev(s, 'fork'); out.append((s, v))
            return out
        if sfn in ('exit', '_exit', '_Exit', 'quick_exit', 'abort'):
            who = S.mon.get('fork')
            self.ob(S, 'who exits', who in ('error', 'parent'), "ends a process that should go on as the daemon")
            self.ob(S, 'exit code', sfn != 'abort' and ((who == 'parent') == (a[0] == 0)), "the parent must exit with 0, a failed fork with another code")
            return []
        if sfn == 'getdtablesize' or sfn == 'sysconf': return [(S, self.table)]
        if sfn == 'close':
            self.ev(S, 'close', a[0]); return [(S, 0)]
        if sfn == 'open':
            p = a[0]
            p = p[1].rstrip('\0') if isinstance(p, tuple) and p[0] == 'strp' else p
            s2 = S.copy()
            self.ev(S, 'open', p, a[1], 0); self.ev(s2, 'open', p, a[1], -1)
            return [(S, 0), (s2, -1)]
        if sfn in ('dup', 'dup2'):
            k = len([x for x in evs(S) if x[0] == 'dup'])
            self.ev(S, 'dup', sfn, *a); return [(S, k + 1)]
        if sfn in ('setsid', 'umask', 'chdir', 'setpgrp'):
            self.ev(S, sfn, *a); return [(S, 0)]
        if sfn == 'pion::process::shutdown' and self.kk == 'handler':
            self.ev(S, 'shutdown')
            return None
        return None


def process(prog, R, tier):
    R.rule("process control interpreted abstractly: shutdown sets the flag under the mutex and wakes every waiter; wait_for_shutdown returns only when the flag is set and waits in between; the configuration singleton is created once; initialize leaves SIGINT and SIGTERM leading to shutdown and SIGPIPE and terminal signals ignored; daemonize forks, ends the parent, starts a session, closes every descriptor before binding the three standard ones to /dev/null and restricts the mode mask; signal handlers take no lock")
    R.assumptions += ["descriptor tables of 3 and 5 entries stand for all sizes", "signal numbers of Linux"]
    total = 0

    def meth(name):
        fs = [f for f in prog.by_name.get(name, []) if 'blocks' in f]
        if not fs: raise AnalysisError("no %s" % name)
        return fs[0]

    def run(fn, key, setup=None, unroll=0, table=4):
        nonlocal total
        f = meth(fn)
        H = PR(f, R, key, table); H.unroll = unroll
        E = Engine(prog, H)

        def st(E, S, fr):
            if setup: setup(E, S, fr)
        fr, ex = E.entry(f, setup=st)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        total += len(ex)
        return H, E, ex
    for now in (0, 1):
        def setup(E, S, fr): S.mem[NOW] = now
        H, E, ex = run('pion::process::shutdown', 'shutdown', setup)
        if not ex: raise AnalysisError("process::shutdown has no exit")
        for k, s, v in ex:
            H.ob(s, 'returns', k == 'ret' and not s.locks, "throws or keeps the mutex")
            H.ob(s, 'sets flag', E.content(s, NOW) == 1, "returns without the shutdown flag set")
            if not now: H.ob(s, 'wakes all', any(e[0] == 'notify_all' and e[1] == COND for e in evs(s)), "does not wake every thread waiting for shutdown")
            H.ob(s, 'singleton', 'once' in s.mon and 'pion::process::create_config' in s.mon['once'], "uses the configuration without making sure it was created once")
    def setup(E, S, fr): init(NOW, ('i', 1, False))
    H, E, ex = run('pion::process::wait_for_shutdown', 'wait', setup)
    if not ex: raise AnalysisError("process::wait_for_shutdown has no exit")
    slept = False
    for k, s, v in ex:
        H.ob(s, 'returns', k == 'ret' and not s.locks, "throws or keeps the mutex")
        H.ob(s, 'only after shutdown', E.assume(s, E.mkcmp(s, '==', E.content(s, NOW), 0), True) is None, "returns although no shutdown may have been requested")
        slept |= bool(s.mon.get('slept'))
    R.ob('wait:sleeps', slept, where(H.f), "never waits for the condition")
    H, E, ex = run('pion::process::create_config', 'singleton')
    for k, s, v in ex:
        p = s.mem.get(('g', 'pion::process::m_config_ptr'))
        H.ob(s, 'created', isinstance(p, tuple) and p[0] == 'addr', "does not publish the configuration object")
    # constructor of the configuration
    fs = [f for f in prog.by_name.get('pion::process::config_type::config_type', []) if 'blocks' in f and not f['params']]
    if fs:
        H = PR(fs[0], R, 'config'); H.write = lambda *a: None
        E = Engine(prog, H)
        fr, ex = E.entry(fs[0])
        for k, s, v in ex:
            if k == 'ret': H.ob(s, 'starts clear', E.content(s, ('f', ('o', 'this'), CT + 'shutdown_now')) == 0, "the shutdown flag does not start cleared")
    # signals
    H, E, ex = run('pion::process::initialize', 'initialize')
    handlers = set()
    for k, s, v in ex:
        for n, nm in SIG.items():
            h = s.mon.get(('sig', n))
            if n in (2, 15):
                H.ob(s, nm, isinstance(h, tuple) and h[0] == 'fn', "%s does not lead to a handler" % nm)
                if isinstance(h, tuple) and h[0] == 'fn': handlers.add(h[1])
            else: H.ob(s, nm, h == 1, "%s is not ignored" % nm)
    for h in sorted(handlers):
        def setup(E, S, fr): init(NOW, ('i', 1, False))
        H, E, ex = run(h, 'handler', setup)
        for k, s, v in ex:
            H.ob(s, 'requests shutdown', k == 'ret' and 'shutdown' in names(s), "the signal handler does not request shutdown")
            for m in s.mon.get('locked', ()):
                H.ob(s, 'async-signal-safe lock ' + (m[2].rsplit('::', 1)[-1] if m[0] == 'f' else m[-1] if isinstance(m[-1], str) else 'mutex'), False, "a signal handler takes a mutex the interrupted thread may hold")
    # daemon
    for table in (3, 5):
        H, E, ex = run('pion::process::daemonize', 'daemonize', unroll=30, table=table)
        for k, s, v in ex:
            e = evs(s); ns = [x[0] for x in e]
            H.ob(s, 'returns', k == 'ret', 'throws')
            if s.mon.get('orphan'):
                H.ob(s, 'already a daemon', not e, "a process that already is a daemon must be left alone")
                continue
            H.ob(s, 'forks', s.mon.get('fork') == 'child', "returns in the parent, or without forking")
            if s.mon.get('fork') != 'child': continue
            H.ob(s, 'new session', 'setsid' in ns, "the daemon stays in the terminal's session")
            closed = {x[1] for x in e if x[0] == 'close'}
            H.ob(s, 'closes descriptors', closed >= set(range(table)), "leaves an inherited descriptor open")
            opens = [i for i, x in enumerate(e) if x[0] == 'open']
            H.ob(s, 'null device', len(opens) == 1 and e[opens[0]][1] == '/dev/null' and isinstance(e[opens[0]][2], int) and e[opens[0]][2] & 3 == 2, "standard input must be bound to /dev/null for reading and writing")
            if opens:
                H.ob(s, 'order', all(i < opens[0] for i, x in enumerate(e) if x[0] == 'close' and x[1] in range(table)), "closes the descriptors it has just bound")
                if e[opens[0]][3] == 0: H.ob(s, 'three descriptors', ns.count('dup') == 2 and all(x[2] == 0 for x in e if x[0] == 'dup') and all(i > opens[0] for i, x in enumerate(e) if x[0] == 'dup'), "standard output and error must be bound as well")
            H.ob(s, 'mode mask', [x[1] for x in e if x[0] == 'umask'][-1:] == [0o27], "files the daemon creates must not be accessible to others")
    R.count('exits', total)
    R.floor('exits examined', total, 8)


# ---------------------------------------------------------------- administrative rights
this = ('o', 'this')
AR = 'pion::admin_rights::'
UID, HAS, LOCK = ('f', this, AR + 'm_user_id'), ('f', this, AR + 'm_has_rights'), ('f', this, AR + 'm_lock')
GM = ('g', AR + 'm_mutex')
IDS = (0, 1, 1000, 32767, 32768, 40000, 65534, 65536, 2147483647, 4294967294)
DIGITS = ('\\d+', '[0-9]+', '[[:digit:]]+', '^\\d+$', '^[0-9]+$')


class AH(Scen):
    max_states = 6000
    unroll = 30

    def __init__(self, f, R, key, euid=1000, found=None):
        Scen.__init__(self)
        self.f, self.R, self.kk, self.euid, self.found = f, R, key, euid, found

    def ob(self, S, k, ok, msg, detail=None): self.R.ob(self.kk + ':' + k, ok, where(self.f), msg, detail or S.path())

    def txt(self, E, S, v):
        if isinstance(v, tuple) and v and v[0] == 'strp': return ('str', v[1].rstrip('\0'))
        if isinstance(v, tuple) and v and v[0] == 'L': return E.content(S, v[1])
        return v

    def call(self, E, S, fr, n, info):
        nm, cls, obj, nid, a, sfn = info['nm'] or '', strip_targs(info['cls'] or ''), info['obj'], info['nid'], info['args'], info['sfn'] or ''
        if sfn in ('geteuid', 'getegid', 'getuid', 'getgid'):
            self.ev(S, sfn, bool(S.locks)); return [(S, self.euid if sfn.startswith('gete') else 77)]
        if sfn in ('seteuid', 'setegid', 'setuid', 'setgid', 'setreuid', 'setresuid', 'setregid'):
            s2 = S.copy()
            self.ev(S, sfn, a[0], bool(S.locks), True); self.ev(s2, sfn, a[0], bool(s2.locks), False)
            return [(S, 0), (s2, -1)]
        if self.found is not None and nm == 'find_system_id':
            self.ev(S, 'find', self.txt(E, S, a[0]), self.txt(E, S, a[1])); return [(S, self.found)]
        if self.kk != 'find_system_id': return None
        T = lambda s, v: E.tmp(s, fr, nid, v)
        if cls == 'boost::basic_regex' and info.get('ctor') and a and not n.get('copy'):
            S.mem[obj] = ('app', 'rx', self.txt(E, S, a[0])); TAG[S.mem[obj]] = 'o'; return [(S, None)]
        if sfn == 'boost::regex_match' or sfn == 'boost::regex_search':
            x, r = self.txt(E, S, a[0]), [self.txt(E, S, y) for y in a[1:]]
            r = next((y for y in r if isinstance(y, tuple) and y[:2] == ('app', 'rx')), None)
            if r is not None and r[2][0] == 'str' and r[2][1] in DIGITS and sfn.endswith('match'):
                k = ('numeric', x)
                if k in S.mon: return [(S, S.mon[k])]
                s2 = S.copy()
                S.mon[k], s2.mon[k] = 1, 0
                return [(S, 1), (s2, 0)]
            self.ob(S, 'numeric test', False, "decides what is a numeric id by something else than digits only")
            return []
        if nm in ('lexical_cast',):
            x = self.txt(E, S, a[0])
            self.ob(S, 'converts numbers only', S.mon.get(('numeric', x)) == 1, "converts a text that may not be a number (throws)")
            self.ob(S, 'id width', n.get('type', '') in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long'), "ids are converted through a type that cannot hold them")
            t = ('app', 'num', x); TAG[t] = ('i', 32, True)
            return [(S, t)]
        if cls.startswith('std::basic_ifstream'):
            if info.get('ctor'):
                p = a[0] if a else None
                c = self.txt(E, S, p) if isinstance(p, tuple) and p[0] == 'L' else p
                self.ev(S, 'open', c); return [(S, None)]
            if nm == 'is_open': 
                s2 = S.copy(); S.mon['file'], s2.mon['file'] = 1, 0
                return [(S, 1), (s2, 0)]
            if nm == 'close': return [(S, 0)]
        if sfn == 'std::getline':
            i = S.mon.get('lines', 0)
            out = []
            if i < 3:
                s2 = S.copy()
                s2.mon['lines'] = i + 1; s2.mon['good'] = 1
                v = ('app', 'line', i); TAG[v] = 'str'
                s2.mem[a[1][1]] = v
                s2.mon['delim'] = a[2] if len(a) > 2 else 10
                out.append((s2, a[0]))
            S.mon['good'] = 0; S.mon['eof'] = 1
            out.append((S, a[0]))
            return out
        if cls.startswith(('std::basic_ios', 'std::basic_istream')) and 'good' in S.mon:
            if nm in ('operator bool', 'good') or 'void' in nm: return [(S, S.mon['good'])]
            if nm in ('operator!', 'fail', 'eof'): return [(S, 1 - S.mon['good'])]
        if cls == 'boost::char_separator' and info.get('ctor') and a and not n.get('copy'):
            S.mem[obj] = ('app', 'sep', self.txt(E, S, a[0]), self.txt(E, S, a[1]) if len(a) > 1 else 0, a[2] if len(a) > 2 else 0); TAG[S.mem[obj]] = 'o'
            return [(S, None)]
        if cls == 'boost::tokenizer':
            if info.get('ctor') and a:
                sep = self.txt(E, S, a[1]) if len(a) > 1 else None
                x = self.txt(E, S, a[0])
                ok = isinstance(sep, tuple) and sep[:3] == ('app', 'sep', ('str', ':')) and sep[3] in (0, ('str', '')) and sep[4] == 1
                self.ob(S, 'fields', ok, "fields are not the texts between colons (an empty field must count as a field)")
                S.mem[obj] = ('app', 'toks', x); TAG[S.mem[obj]] = 'o'
                return [(S, None)]
            x = E.content(S, obj)
            if nm == 'begin': t = ('app', 'tok', x, 0)
            elif nm == 'end': t = ('app', 'tokend', x)
            else: return None
            TAG[t] = 'o'
            return [(S, T(S, t))]
        if cls.startswith('boost::iterators') or cls == 'boost::token_iterator' or sfn.startswith('boost::iterators::operator'):
            xs = ([obj] if obj is not None else []) + [x[1] for x in a if isinstance(x, tuple) and x[0] == 'L']
            cs = [E.content(S, x) for x in xs]
            if info.get('ctor'): return None
            if nm in ('operator==', 'operator!=') and len(cs) == 2:
                if cs[0][1] == 'tokend': cs.reverse()
                if cs[0][1] == 'tok' and cs[1][1] == 'tokend':
                    out = []
                    for s, has in self.has(S, cs[0][2], cs[0][3]): out.append((s, int((not has) == (nm == 'operator=='))))
                    return out
            if cs and isinstance(cs[0], tuple) and cs[0][1] == 'tok':
                x, j = cs[0][2], cs[0][3]
                known = S.mon.get(('has', x, j))
                if nm in ('operator*', 'operator->'):
                    self.ob(S, 'memory', known == 1, "reads a field that may not exist")
                    t = ('app', 'field', x, j); TAG[t] = 'str'
                    return [(S, T(S, t))]
                if nm == 'operator++':
                    self.ob(S, 'memory', known == 1, "moves past the last field")
                    t = ('app', 'tok', x, j + 1); TAG[t] = 'o'
                    if a and not isinstance(a[0], tuple): 
                        old = T(S, cs[0]); S.mem[obj] = t
                        return [(S, old)]
                    S.mem[obj] = t
                    return [(S, ('L', obj))]
        if nm in ('operator==', 'operator!=', 'compare') and (sfn.startswith('std::') or nm == 'compare'):
            xs = ([obj] if obj is not None else []) + [x[1] for x in a if isinstance(x, tuple) and x[0] == 'L']
            cs = [E.content(S, x) for x in xs]
            if len(cs) == 2:
                fld = next((c for c in cs if isinstance(c, tuple) and c[:2] == ('app', 'field')), None)
                oth = next((c for c in cs if c is not fld), None)
                if fld is not None:
                    k = ('same', fld, oth)
                    vals = [S.mon[k]] if k in S.mon else [1, 0]
                    out = []
                    for v in vals:
                        s = S.copy(); s.mon[k] = v
                        out.append((s, int(bool(v) == (nm == 'operator=='))))
                    return out
        return None

    def has(self, S, x, j):
        k = ('has', x, j)
        if k in S.mon: return [(S, S.mon[k])]
        if j == 0: 
            s2 = S.copy(); S.mon[k], s2.mon[k] = 1, 0
            return [(S, 1), (s2, 0)]
        s2 = S.copy(); S.mon[k], s2.mon[k] = 1, 0
        return [(S, 1), (s2, 0)]


def rights(prog, R, tier):
    R.rule("admin_rights interpreted abstractly, through construction, release, second release and destruction, for every outcome of the system calls and user ids of every width: rights are raised only under the process-wide mutex, the exact user id read before is restored, the mutex is given back exactly once; run_as_user/group switch to the id found; find_system_id reads the third colon-separated field of the first line whose first field is the name")
    R.assumptions += ["user ids sampled at every width boundary: " + ", ".join(map(str, IDS)), "system files of up to three lines; the loop treats lines alike"]
    total = 0

    def meth(name, ctor=False):
        fs = [f for f in prog.by_name.get(name, []) if 'blocks' in f and not (ctor and (len(f['params']) != 1 or 'admin_rights' in params(f)[0][0]))]
        if not fs: raise AnalysisError("no %s" % name)
        return fs[0]
    fc, fr_, fd = meth(AR + 'admin_rights', True), meth(AR + 'release'), meth(AR + '~admin_rights')
    for uid in IDS:
        H = AH(fc, R, 'construct', uid)
        E = Engine(prog, H)
        fr, ex = E.entry(fc)
        R.engine(E)
        held = lambda s: bool(s.mem.get(LOCK)) and s.mem[LOCK][0] == 'lock' and s.mem[LOCK][2] == 1
        for k, s, v in ex:
            if k not in ('ret', 'throw'): continue
            total += 1
            e = evs(s)
            d = dict(uid=uid, path=s.path())
            ob = lambda q, ok, msg: H.ob(s, q, ok, msg, d)
            ob('returns', k == 'ret', 'throws')
            sets = [x for x in e if x[0].startswith('set')]
            gets = [i for i, x in enumerate(e) if x[0] == 'geteuid']
            ob('raises', len(sets) == 1 and sets[0][:2] == ('seteuid', 0), "must make exactly one attempt to become the administrator")
            ob('locked', all(x[2] for x in sets) and all(x[1] for x in e if x[0] == 'geteuid'), "reads or changes the effective user without holding the process-wide mutex")
            if not sets: continue
            i = [j for j, x in enumerate(e) if x[0].startswith('set')][0]
            ob('saves first', bool(gets) and min(gets) < i, "must read the user id to return to before raising rights")
            got = E.content(s, HAS)
            if not sets[0][3]:
                ob('failure', got == 0 and not held(s) and GM not in s.locks, "after a failed attempt no rights are held and the mutex must be free")
                nxt = [(fr_, 'release', False), (fd, 'destroy', False)]
            else:
                ob('success', got == 1 and held(s), "after a successful attempt the object holds the rights and the mutex")
                nxt = [(fr_, 'release', True), (fd, 'destroy', True)]
            # what follows
            for f2, kk, active in nxt:
                S2 = s.copy()
                S2.mon = {q: w for q, w in S2.mon.items() if q != 'ev'}
                H2 = AH(f2, R, kk, 0)
                E2 = Engine(prog, H2)
                _, ex2 = E2.entry(f2, S=S2)
                for k2, s2, v2 in ex2:
                    if k2 not in ('ret', 'throw'): continue
                    total += 1
                    sets2 = [x for x in evs(s2) if x[0].startswith('set')]
                    d2 = dict(uid=uid, path=s2.path())
                    ob2 = lambda q, ok, msg: H2.ob(s2, q, ok, msg, d2)
                    if not active: ob2('nothing held', not sets2 and GM not in s2.locks, "changes the user although no rights are held"); continue
                    ob2('restores', [x[:2] for x in sets2] == [('seteuid', uid)], "must return once to exactly the user id in effect before (user id %d, asks for %s)" % (uid, [x[1] for x in sets2]))
                    ob2('still locked', all(x[2] for x in sets2), "gives the mutex away before the rights are released")
                    ob2('unlocks', not held(s2) and GM not in s2.locks, "keeps the mutex")
                    if kk == 'release':
                        ob2('flag', E2.content(s2, HAS) == 0, "still claims to hold rights")
                        for f3, k3 in ((fr_, 'release again'), (fd, 'destroy after release')):
                            S3 = s2.copy(); S3.mon = {q: w for q, w in S3.mon.items() if q != 'ev'}
                            H3 = AH(f3, R, k3, 0); E3 = Engine(prog, H3)
                            _, ex3 = E3.entry(f3, S=S3)
                            for a3, s3, _v in ex3:
                                total += 1
                                H3.ob(s3, 'once only', a3 == 'ret' and not [x for x in evs(s3) if x[0].startswith('set')], "releasing twice changes the user again")
    for fn, file, setter in (('run_as_user', '/etc/passwd', 'seteuid'), ('run_as_group', '/etc/group', 'setegid')):
        f = meth(AR + fn)
        N = init(params(f)[0][1], 'str')
        for found in (-1, 0, 5, 1000, 40000, 70000, 2147483647):
            H = AH(f, R, fn, 4242, found)
            E = Engine(prog, H)
            fr, ex = E.entry(f)
            R.engine(E)
            for k, s, v in ex:
                if k not in ('ret', 'throw'): continue
                total += 1
                e = evs(s)
                d = dict(id=found, path=s.path())
                finds = [x for x in e if x[0] == 'find']
                H.ob(s, 'looks up', finds == [('find', N, ('str', file))], "must look the name up in %s" % file, d)
                sets = [x for x in e if x[0].startswith('set')]
                if found == -1: H.ob(s, 'unknown', not sets and v == 4242, "an unknown name must leave the identity alone and report the current one", d)
                else:
                    H.ob(s, 'switches', len(sets) == 1 and sets[0][0] == setter and sets[0][1] == found, "must switch to exactly the id found, with %s" % setter, d)
                    if sets: H.ob(s, 'answer', v == (found if sets[-1][3] else -1), "must report the id, or -1 when the switch failed", d)
    f = meth(AR + 'find_system_id')
    H = AH(f, R, 'find_system_id')
    E = Engine(prog, H)
    N, F = init(params(f)[0][1], 'str'), init(params(f)[1][1], 'str')
    fr, ex = E.entry(f)
    R.engine(E)
    n0 = 0
    for k, s, v in ex:
        if k not in ('ret', 'throw'): continue
        total += 1; n0 += 1
        H.ob(s, 'returns', k == 'ret', 'throws')
        num = s.mon.get(('numeric', N))
        want = -1
        if num == 1: want = ('app', 'num', N)
        elif s.mon.get('file') != 0:
            done = False
            for i in range(s.mon.get('lines', 0)):
                x = ('app', 'toks', ('app', 'line', i))
                same = s.mon.get(('same', ('app', 'field', x, 0), N))
                if same == 1:
                    f2 = ('app', 'field', x, 2)
                    if s.mon.get(('has', x, 1)) == 1 and s.mon.get(('has', x, 2)) == 1 and s.mon.get(('numeric', f2)) == 1: want = ('app', 'num', f2)
                    elif s.mon.get(('has', x, 1)) != 0 and s.mon.get(('has', x, 2)) != 0 and s.mon.get(('numeric', f2)) != 0: want = None
                    done = True
                    break
                if same is None and s.mon.get(('has', x, 0)) != 0: want = None
            if not done and not s.mon.get('eof'): want = None
        H.ob(s, 'decided', num is not None or want is not None, "answers without having looked")
        opens = [x[1] for x in evs(s) if x[0] == 'open']
        if num != 1: H.ob(s, 'opens the file', len(opens) == 1 and 'arg' in repr(opens[0]) and F[1][2] in repr(opens[0]), "must read the given system file")
        if s.mon.get('lines'): H.ob(s, 'line by line', s.mon.get('delim') == 10, "lines end at the newline")
        got = v
        if isinstance(v, tuple) and v[0] == 'op' and v[1] in ('cast', 'sext'): got = v[2]
        H.ob(s, 'answer', want is not None and got == want, "must return the third field of the first line whose first field equals the name, the number itself for a numeric name, -1 otherwise (returns %s, should be %s)" % (got, want))
    R.count('exits', total)
    R.floor('exits examined', total, 60)
    R.floor('find_system_id exits', n0, 6)
