"""C25 readers and the read position, C27 servers and timers: what becomes of a connection."""
from ..load import AnalysisError
from ..eng import Engine, TAG, add, sub
from ..maps import Maps, ent, key_loc, val_loc, FIRST, SECOND
from ..report import where
from ..models import boolof
from .httpmsg import Scen, params, set_arg, evs
from .auth import AU, init, app, meth, this, fact, error_fact, prog_const

RD, PS, CN, TM, SV = 'pion::http::reader::', 'pion::http::parser::', 'pion::tcp::connection::', 'pion::tcp::timer::', 'pion::tcp::server::'
BOOL = ('i', 1, False)
CONNP = ('app', 'connection')
TAG[CONNP] = 'p'


def sc_(E, S, v): return E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else v


def set_error(E, t):
    """is this error code certainly set?"""
    b = boolof(E, t)
    return b == 1 or isinstance(t, tuple) and t[:2] == ('app', 'code') and isinstance(t[2], int) and t[2] != 0


class CH(AU):
    """a connection whose own inline accessors are entered, everything that does I/O recorded"""
    def __init__(self, opaque=(), prog=None):
        AU.__init__(self, opaque)
        self.prog = prog

    def state(self, E, S):
        """lifecycle and saved read position at this moment"""
        c = E.deref(CONNP)
        g = lambda f: E.content(S, ('f', c, CN + f))
        rp = ('f', c, CN + 'm_read_position')
        return g('m_lifecycle'), E.content(S, ('f', rp, FIRST)), E.content(S, ('f', rp, SECOND))

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: sc_(E, S, v)
        lk = tuple(m for m in S.locks)
        if cls.startswith('pion::tcp::timer') and 'timer' not in self.opaque:
            if info.get('ctor'):
                self.ev(S, 'timer', sc(a[0])); return [(S, None)]
            if nm in ('start', 'cancel'):
                self.ev(S, 'timer.' + nm, *[sc(x) for x in a]); return [(S, 0)]
        if nm in ('shared_from_this', 'weak_from_this'): return [(S, E.tmp(S, fr, nid, app('shared_from_this', obj, tag='p')))]
        if cls.startswith('boost::array') and nm in ('data', 'c_array', 'begin', 'cbegin'):
            t = app('data', obj, tag='p'); S.setint(t, ((1 << 12, 1 << 46),))
            return [(S, t)]
        if nm == 'finish' and cls.startswith('pion::tcp::connection'):
            self.ev(S, 'finish', self.state(E, S)); return [(S, 0)]
        return AU.call(self, E, S, fr, n, info)


# ------------------------------------------------------------------ http::reader
class RH_(CH):
    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: sc_(E, S, v)
        if nm == 'parse' and cls.startswith('pion::http') and len(a) == 2:
            self.ev(S, 'parse', a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'L' else a[0],
                    E.content(S, ('f', this, PS + 'm_read_ptr')), E.content(S, ('f', this, PS + 'm_read_end_ptr')), self.state(E, S)[0])
            out = []
            for r in (0, 1, 2):
                for rem in (0, 1):
                    if r == 2 and rem: continue      # the parser consumes all it was given before it asks for more
                    s = S.copy()
                    s.mon['outcome'] = (r, rem)
                    p = app('pos', tag='p'); s.setint(p, ((1 << 12, 1 << 46),))
                    k = app('left', tag=('i', 64, False)); s.setint(k, ((1, 8192),))
                    E.write(s, fr, ('f', this, PS + 'm_read_ptr'), p, n)
                    E.write(s, fr, ('f', this, PS + 'm_read_end_ptr'), add(p, k) if rem else p, n)
                    if isinstance(a[1], tuple) and a[1][0] == 'L': E.write(s, fr, a[1][1], app('parse error', r, tag='o'), n)
                    out.append((s, E.tmp(s, fr, nid, r)))
            return out
        if nm == 'make_error_code' and len(a) == 1: return [(S, E.tmp(S, fr, nid, app('code', sc(a[0]), tag='o')))]
        if nm == 'get_message': return [(S, ('L', ('o', 'message')))]
        if nm == 'check_keep_alive' and obj == ('o', 'message'): return [(S, app('keep', tag=BOOL))]
        if nm == 'set_is_valid' and obj == ('o', 'message'):
            self.ev(S, 'set_is_valid', *[sc(x) for x in a]); return [(S, 0)]
        if nm == 'check_premature_eof':
            self.ev(S, 'premature', a[0][1] if isinstance(a[0], tuple) else a[0], self.state(E, S)[0])
            return [(S, app('premature', tag=BOOL))]
        if nm == 'finished_reading':
            t = E.content(S, ('f', this, RD + 'm_timer_ptr'))
            self.ev(S, 'finished', boolof(E, sc(a[0])), sc(a[0]), self.state(E, S)); return [(S, 0)]
        if nm == 'read_bytes':
            self.ev(S, 'read', E.content(S, ('f', this, RD + 'm_timer_ptr'))); return [(S, 0)]
        if nm in self.opaque:
            self.ev(S, nm, *[boolof(E, sc(x)) if 'error_code' in (n.get('pt') or [''] * 9)[i] else sc(x) for i, x in enumerate(a)])
            return [(S, 0)]
        return CH.call(self, E, S, fr, n, info)


def reader(prog, R):
    total = 0
    CLOSE, KEEP, PIPE = (prog_const(prog, CN + 'LIFECYCLE_' + x, d) for x, d in (('CLOSE', 0), ('KEEPALIVE', 1), ('PIPELINED', 2)))
    life0 = init(('lifecycle',), ('i', 32, False))
    P1, P2 = init(('saved', 1), 'p'), init(('saved', 2), 'p')

    def run(fn, pred, setup2=None, ins=(), vals=(None,)):
        nonlocal total
        f = meth(prog, RD + fn, pred)
        for val in vals:
            H = RH_(ins, prog); E = Engine(prog, H)

            def setup(E, S, fr):
                S.setint(CONNP, ((1 << 12, 1 << 46),))
                S.mem[('f', this, RD + 'm_tcp_conn')] = CONNP
                c = E.deref(CONNP)
                S.setint(life0, ((0, 2),))
                S.mem[('f', c, CN + 'm_lifecycle')] = life0
                S.mem[('f', ('f', c, CN + 'm_read_position'), FIRST)] = P1
                S.mem[('f', ('f', c, CN + 'm_read_position'), SECOND)] = P2
                if setup2: setup2(E, S, fr, f, val)
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("reader::%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                l = evs(s)
                def ob(k, ok, msg, fn=fn): R.ob("reader.%s:%s" % (fn, k), ok, where(f), msg, dict(events=[str(e)[:150] for e in l], path=s.path()))
                ob('returns', kind == 'ret', "throws")
                yield E, H, f, s, l, [e[0] for e in l], ob, val

    # receive(): what is left of the previous message first
    for E, H, f, s, l, N, ob, val in run('receive', lambda f: 1, ins=('consume_bytes', 'read_bytes_with_timeout')):
        p = fact(E, s, E.mkcmp(s, '==', life0, PIPE)) if False else (1 if E.assume(s.copy(), E.mkcmp(s, '==', life0, PIPE), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '==', life0, PIPE), True) is None else None)
        ob('decided', p is not None, "does not look whether bytes of this message have been read already")
        ob('one step', N == (['consume_bytes'] if p else ['read_bytes_with_timeout'] if p == 0 else N[:1]), "a pipelined message starts with the bytes left by the one before it, any other with a read")
        ob('closing', H.state(E, s)[0] == CLOSE, "the connection is not marked for closing while the message is incomplete")
        if p:
            ob('position', (E.content(s, ('f', this, PS + 'm_read_ptr')), E.content(s, ('f', this, PS + 'm_read_end_ptr'))) == (P1, P2), "does not continue where the previous message ended")

    # consume_bytes(): one parser step
    two = lambda k: (lambda f: len(params(f)) == k)
    for E, H, f, s, l, N, ob, val in run('consume_bytes', two(0), ins=('read_bytes_with_timeout',)):
        R.ob('reader.step:parses once', N.count('parse') == 1 and N[0] == 'parse' and l[0][1] == ('o', 'message'), where(f), "a step does not parse the message exactly once")
        if 'outcome' not in s.mon: continue
        r, rem = s.mon['outcome']
        fin = [e for e in l if e[0] == 'finished']
        def ob2(k, ok, msg): R.ob("reader.step:" + k, ok, where(f), msg, dict(outcome=('refused', 'complete', 'incomplete')[r], bytes_left=rem, events=[str(e)[:200] for e in l], path=s.path()))
        if r == 2:
            ob2('incomplete', N.count('read_bytes_with_timeout') + N.count('read') == 1 and not fin, "an incomplete message is not continued by exactly one read")
            ob2('still closing', H.state(E, s)[0] == life0 or H.state(E, s)[0] == CLOSE, "an incomplete message changes what becomes of the connection")
            continue
        ob2('reported once', len(fin) == 1 and N[-1] == 'finished' and not N.count('read_bytes_with_timeout') + N.count('read'), "a finished message is not reported exactly once, as the last step")
        if not fin: continue
        lf, q1, q2 = fin[0][3]
        ob2('error', fin[0][2] == app('parse error', r, tag='o'), "does not report the parser's own result")
        if r == 0:
            ob2('refused', lf == CLOSE and ('set_is_valid', 0) in l, "a refused message must close the connection and be marked invalid before it is reported")
            continue
        k = fact(E, s, app('keep', tag=BOOL))
        ob2('keep-alive decided', k is not None or lf == CLOSE and False, "does not ask whether the connection is kept alive")
        if k is None: continue
        ob2('lifecycle', lf == (CLOSE if not k else PIPE if rem else KEEP), "a complete message keeps the connection exactly when it may be kept alive, and as pipelined exactly when bytes are left")
        if k and rem:
            p = app('pos', tag='p')
            ob2('left over', (q1, q2) == (p, add(p, app('left', tag=('i', 64, False)))), "the bytes after the message are not what the next reader will be given")

    # consume_bytes(error, count): the end of a read
    TP = init(('timer',), 'p')
    def arm(E, S, fr, f, val):
        S.mem[('f', this, RD + 'm_timer_ptr')] = TP
        S.setint(init(params(f)[1][1], ('i', 64, False)), ((0, 8192),))
    for E, H, f, s, l, N, ob, val in run('consume_bytes', two(2), arm, ins=('consume_bytes', 'handle_read_error')):
        ps = params(f)
        n = init(ps[1][1], ('i', 64, False))
        fe = error_fact(E, s, ps[0][1])
        ft = fact(E, s, TP)
        def ob2(k, ok, msg): R.ob("reader.read:" + k, ok, where(f), msg, dict(events=[str(e)[:200] for e in l], path=s.path()))
        last = [i for i, x in enumerate(N) if x != 'timer.cancel']
        if ft == 1: ob2('timer', 'timer.cancel' in N[:last[0] if last else None] and E.content(s, ('f', this, RD + 'm_timer_ptr')) == 0, "the read has ended: its timer must be cancelled and released before anything else happens")
        else: ob2('timer decided', ft == 0, "does not look for a running timer")
        rest = [e for e in l if e[0] != 'timer.cancel']
        if fe == 1:
            ob2('error', [e[0] for e in rest] == ['handle_read_error'] and rest[0][1] == boolof(E, init(ps[0][1], 'o')), "a failed read must be reported exactly once, with its error")
            continue
        ob2('error decided', fe == 0, "uses the result of a read that may have failed")
        rp, re = E.content(s, ('f', this, PS + 'm_read_ptr')), E.content(s, ('f', this, PS + 'm_read_end_ptr'))
        buf = rp
        ob2('buffer', sub(re, rp) == n or sub(re, rp) == 0 and E.assume(s.copy(), E.mkcmp(s, '!=', n, 0), True) is None, "does not parse exactly the bytes that were read")
        ob2('own buffer', 'm_read_buffer' in str(rp), "does not parse the connection's read buffer")
        z = 1 if E.assume(s.copy(), E.mkcmp(s, '==', n, 0), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '==', n, 0), True) is None else None
        if z == 1: ob2('end', [e[0] for e in rest] in (['finished'],) and set_error(E, rest[0][2]), "a read of no bytes must be reported as the end, exactly once")
        elif z == 0: ob2('continues', [e[0] for e in rest] == ['consume_bytes'], "the bytes read are not parsed exactly once")
        else: ob2('continues', [e[0] for e in rest] == ['consume_bytes'], "the bytes read are not parsed exactly once")

    for E, H, f, s, l, N, ob, val in run('handle_read_error', lambda f: 1):
        ps = params(f)
        fin = [e for e in l if e[0] == 'finished']
        ob('once', len(fin) == 1 and N[-1] == 'finished', "a failed read is not reported exactly once")
        ob('no read', not set(N) & {'read', 'parse'}, "goes on reading after an error")
        pre = fact(E, s, app('premature', tag=BOOL))
        ob('end of data', pre is not None and N.count('premature') == 1 and [e[1] for e in l if e[0] == 'premature'] == [('o', 'message')], "does not ask once whether the message ends with the connection")
        if fin:
            ob('closes', fin[0][3][0] == CLOSE, "the connection is not closed after an error")
            if pre == 1: ob('error', fin[0][2] == init(ps[0][1], 'o') or fin[0][1] == 1 or fin[0][1] == boolof(E, init(ps[0][1], 'o')), "does not report the error")
            elif pre == 0: ob('complete', fin[0][1] == 0, "a message that ends with the connection is reported as failed")

    TO = init(('f', this, RD + 'm_read_timeout'), ('i', 32, False))
    def lim(E, S, fr, f, val): S.mem[('f', this, RD + 'm_read_timeout')] = TO
    for E, H, f, s, l, N, ob, val in run('read_bytes_with_timeout', lambda f: 1, lim):
        z = 1 if E.assume(s.copy(), E.mkcmp(s, '==', TO, 0), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '==', TO, 0), True) is None else None
        ob('reads once', N.count('read') == 1 and N[-1] == 'read', "does not start exactly one read, as the last step")
        ob('decided', z is not None, "does not look at the time limit")
        if z == 0:
            ob('limited', N == ['timer', 'timer.start', 'read'] and l[0][1] == CONNP and l[1][1] == TO, "a read with a time limit must be guarded by a timer of this connection, started with that limit")
            ob('remembered', N[-1] == 'read' and l[-1][1] not in (0, init(('f', this, RD + 'm_timer_ptr'), 'p')), "the timer that was started is not the one that will be cancelled")
        elif z == 1: ob('unlimited', N == ['read'] and (l[-1][1] == 0 or l[-1][1] != 0 and fact(E, s, l[-1][1]) == 0), "a read without time limit must leave no timer behind")
    return total


class FH(CH):
    """the concrete readers"""
    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: sc_(E, S, v)
        if cls.startswith('boost::function') and nm == 'operator()' and obj[0] == 'f':
            self.ev(S, obj[2].rsplit('::', 1)[-1], *[sc(x) for x in a]); return [(S, 0)]
        if nm == 'async_read_some':
            self.ev(S, nm, obj, *[sc(x) for x in a]); return [(S, 0)]
        return CH.call(self, E, S, fr, n, info)


def readers(prog, R):
    total = 0
    for C in ('pion::http::request_reader::', 'pion::http::response_reader::'):
        short = C.split('::')[2]
        msg = init(('message',), 'p')
        for fn, fld in (('finished_reading', 'm_finished'), ('finished_parsing_headers', 'm_parsed_headers'), ('read_bytes', None), ('get_message', None)):
            f = meth(prog, C + fn)
            H = FH(); E = Engine(prog, H)

            def setup(E, S, fr):
                S.setint(CONNP, ((1 << 12, 1 << 46),)); S.setint(msg, ((1 << 12, 1 << 46),))
                S.mem[('f', this, RD + 'm_tcp_conn')] = CONNP
                S.mem[('f', this, C + 'm_http_msg')] = msg
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                l = evs(s)
                def ob(k, ok, m): R.ob("%s.%s:%s" % (short, fn, k), ok, where(f), m, dict(events=[str(e)[:300] for e in l], path=s.path()))
                ob('returns', kind == 'ret', "throws")
                if fld:
                    ec = init(params(f)[0][1], 'o')
                    h = E.content(s, ('f', this, C + fld))
                    st = fact(E, s, h) if not l else 1
                    if l: ob('handed over', len(l) == 1 and l[0] == (fld, msg, CONNP, ec), "the handler does not get this message, this connection and this result exactly once")
                    else: ob('not called', E.assume(s.copy(), boolof(E, h), True) is None if not isinstance(boolof(E, h), int) else not boolof(E, h), "does not call a handler that is set")
                elif fn == 'read_bytes':
                    ok = len(l) == 1 and l[0][0] == 'async_read_some' and l[0][1] == E.deref(CONNP) and len(l[0]) == 3
                    ob('one read', ok, "does not start exactly one read of this connection")
                    if ok:
                        t = str(l[0][2])
                        ob('continuation', 'consume_bytes' in t and 'placeholders::error' in t and 'placeholders::bytes_transferred' in t or 'lambda' in t, "the read does not continue with its result")
                        ob('kept alive', 'shared_from_this' in t or 'weak' in t or 'shared_ptr' in t, "the reader is not kept alive until the read ends")
                else: ob('message', v == ('L', E.deref(msg)), "another message")
    return total


def c25(prog, R, tier):
    R.rule("each step of http::reader interpreted abstractly over every outcome of its parser (refused, complete, incomplete; bytes left or not), of a read (error, end, bytes) and every state of the connection; the connection's own accessors are entered, so lifecycle and read position are compared in the connection itself at the moment the message is reported")
    R.assumptions += ["http::parser::parse consumes everything it is given before it reports an incomplete message (C08-C10 decide the parser)", "boost::asio calls a completion handler exactly once"]
    c = [('reader steps', reader(prog, R)), ('request and response readers', readers(prog, R))]
    for k, v in c: R.count(k, v)
    R.floor('exits examined', sum(v for k, v in c), 30)


# ------------------------------------------------------------------ tcp::server and its timers
class SH(CH):
    SETF = {'pool': 'm_conn_pool'}
    sets = True
    throws = False
    waits = 0

    def held(self, S): return tuple(m for m in S.locks)

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: sc_(E, S, v)
        fld = obj[2].rsplit('::', 1)[-1] if obj is not None and obj[0] == 'f' and isinstance(obj[2], str) else ''
        if fld == 'm_tcp_acceptor' and not info.get('ctor'):
            if nm == 'is_open': return [(S, app('acceptor open', tag=BOOL))]
            self.ev(S, 'acceptor.' + nm, *[sc(x) for x in a])
            r = E.tmp(S, fr, nid, app('acceptor', nm, tag='o')) if n.get('type') not in ('void', None) and 'error_code' not in n.get('type', '') else 0
            out = [(S, r)]
            if self.throws and nm in ('open', 'set_option', 'bind', 'listen'):
                s2 = S.copy(); s2.mon['threw'] = nm
                out.append(('throw', s2, 'boost::system::system_error'))
            return out
        if fld in ('m_no_more_connections', 'm_server_has_stopped') and nm in ('notify_all', 'notify_one', 'wait', 'timed_wait', 'wait_for', 'wait_until'):
            return self.blocks(E, S, fr, n, fld + '.' + nm)
        if nm == 'sleep' and 'scheduler' in (info.get('sfn') or cls):
            return self.blocks(E, S, fr, n, 'm_no_more_connections.timed_wait' if any('m_no_more_connections' in str(x) for x in a) else 'sleep')
        if nm in ('add_active_user', 'remove_active_user'):
            self.ev(S, nm, self.held(S)); return [(S, 0)]
        if nm in self.opaque and nm in ('handle_connection', 'finish_connection', 'listen', 'handle_accept', 'before_starting', 'after_stopping', 'prune_connections'):
            if nm == 'prune_connections':
                self.ev(S, nm); return [(S, len(self.entries(S, 'pool')[0]))]
            if nm == 'listen': S.mon['listening at listen'] = E.content(S, ('f', this, SV + 'm_is_listening'))
            self.ev(S, nm, *([sc(x) for x in a] + [self.held(S)])); return [(S, 0)]
        if nm == 'get_io_service': return [(S, ('L', ('o', 'io')))]
        if nm == 'create' and cls.startswith('pion::tcp::connection'):
            self.ev(S, 'create', sc(a[-1]))
            t = app('new connection', tag='p'); S.setint(t, ((1 << 12, 1 << 46),))
            return [(S, E.tmp(S, fr, nid, t))]
        if nm in ('async_accept', 'async_handshake_server') and cls.startswith('pion::tcp::connection'):
            self.ev(S, nm, obj, sc(a[-1])); return [(S, 0)]
        if nm in ('close', 'cancel') and cls.startswith('pion::tcp::connection'):
            self.ev(S, 'connection.' + nm, obj); return [(S, 0)]
        if nm == 'for_each' and len(a) == 3:
            self.ev(S, 'for_each', sc(a[0]), sc(a[1]), sc(a[2])); return [(S, E.tmp(S, fr, nid, 0))]
        if nm in ('unique', 'use_count') and obj is not None:
            p = E.content(S, obj)
            t = app('unique', p, tag=BOOL)
            if nm == 'unique': return [(S, t)]
            out = []
            for w in (True, False):
                s = E.assume(S.copy(), E.mkcmp(S, '!=', t, 0), w)
                if s is not None: out.append((s, 1 if w else 2))
            return out
        if cls.startswith('pion::admin_rights'): return [(S, None if info.get('ctor') else 0)]
        if cls.startswith('boost::asio::basic_deadline_timer') or cls.startswith('boost::asio::detail::deadline') or fld == 'm_timer' and cls.startswith('boost::asio'):
            if info.get('ctor'): return None
            self.ev(S, 'deadline.' + nm, *[sc(x) for x in a]); return [(S, E.tmp(S, fr, nid, app('timer result', nm, tag='o')) if nm != 'async_wait' else 0)]
        return CH.call(self, E, S, fr, n, info)

    def blocks(self, E, S, fr, n, what):
        """waiting releases the lock: meanwhile connections finish, or the server is stopped"""
        self.ev(S, what)
        if 'wait' not in what and what != 'sleep': return [(S, 0)]
        out = []
        k = S.mon.get('waited', 0)
        s = S.copy(); s.mon['waited'] = k + 1
        s.mon['others'] = 1
        E.write(s, fr, ('f', this, SV + 'm_is_listening'), 0, n, ev=False)
        self.put(s, 'pool', (), False, ())
        out.append((s, 1))
        if k < 1:
            s = S.copy(); s.mon['waited'] = k + 1
            out.append((s, 1))
        return out

    def erased(self, E, S, fr, m, i, n):
        CH.erased(self, E, S, fr, m, i, n)


def server(prog, R):
    total = 0
    LI = ('f', this, SV + 'm_is_listening')

    def run(fn, H, n=0, listening=None, pre=None):
        nonlocal total
        f = meth(prog, SV + fn)
        E = Engine(prog, H)

        def setup(E, S, fr):
            H.put(S, 'pool', range(1, n + 1), False, ())
            S.mon['nextent'] = n + 1
            for i in range(1, n + 1):
                t = init(('conn', i), 'p'); S.setint(t, ((1 << 12, 1 << 46),))
                S.mem[ent(i)] = t
            if listening is not None: S.mem[LI] = listening
            for ty, l in params(f):
                if 'connection' in ty and 'shared_ptr' in ty: S.setint(init(l, 'p'), ((1 << 12, 1 << 46),))
            if pre: pre(E, S, fr, f)
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("server::%s has no exit" % fn)
        for kind, s, v in ex:
            total += 1
            l = evs(s)
            def ob(k, ok, msg): R.ob("server.%s:%s" % (fn, k), ok, where(f), msg, dict(listening=listening, connections=n, events=[str(e)[:160] for e in l], path=s.path()))
            for e in l:
                if e[0] == 'bad': ob('iterators', False, e[1])
            yield E, f, kind, s, v, l, [e[0] for e in l], ob

    OPQ = ('handle_connection', 'finish_connection', 'listen', 'before_starting', 'after_stopping', 'prune_connections')
    KEEP = prog_const(prog, CN + 'LIFECYCLE_CLOSE', 0)
    # finish_connection
    for n in (0, 1, 2):
        for li in (0, 1):
            life = init(('lifecycle',), ('i', 32, False))
            def pre(E, S, fr, f):
                S.setint(life, ((0, 2),))
                S.mem[('f', E.deref(init(params(f)[0][1], 'p')), CN + 'm_lifecycle')] = life
            H = SH(OPQ)
            for E, f, kind, s, v, l, N, ob in run('finish_connection', H, n, li, pre):
                ob('returns', kind == 'ret', "throws")
                c = init(params(f)[0][1], 'p')
                closing = 1 if E.assume(s.copy(), E.mkcmp(s, '==', life, KEEP), False) is None else 0 if E.assume(s.copy(), E.mkcmp(s, '==', life, KEEP), True) is None else None
                hc = [e for e in l if e[0] == 'handle_connection']
                gone = [i for m, i in s.mon.get('gone', ())]
                hit = [i for i in range(1, n + 1) if c in s.mon.get(('alias', i), ())]
                if hc:
                    ob('goes on', li == 1 and closing == 0 and len(hc) == 1 and hc[0][1] == c and not gone, "serves a connection again that was to be closed, or of a server that was stopped")
                    ob('no lock', not hc[0][-1], "serves a connection with the server's lock held")
                    continue
                ob('served again', not (li and closing != 1), "a kept-alive connection of a running server is not served again")
                ob('forgotten', sorted(gone) == hit and (hit or c in H.entries(s, 'pool')[2] or n == 0 or all(E.content(s, ent(i)) != c for i in H.entries(s, 'pool')[0])), "a finished connection must leave the pool, and no other one")
                left = H.entries(s, 'pool')[0]
                if not li: ob('announced', ('m_no_more_connections.notify_all' in N) == (not left) or left and 'm_no_more_connections.notify_all' in N, "does not tell the thread that waits in stop() that the last connection has finished")
    # listen
    for n in (0, 1):
        for li in (0, 1):
            H = SH(OPQ)
            for E, f, kind, s, v, l, N, ob in run('listen', H, n, li):
                ob('returns', kind == 'ret', "throws")
                c = app('new connection', tag='p')
                added = [i for m, i in s.mon.get('added', ())]
                if not li:
                    ob('stopped', not set(N) & {'create', 'async_accept'} and not added, "a server that was stopped accepts another connection")
                    continue
                cr, ac = [e for e in l if e[0] == 'create'], [e for e in l if e[0] == 'async_accept']
                ob('one accept', len(cr) == 1 and len(ac) == 1 and ac[0][1] == E.deref(c), "a running server must wait for exactly one new connection")
                ob('finish handler', len(cr) == 1 and 'finish_connection' in str(cr[0][1]) and str(this) in str(cr[0][1]) or 'lambda' in str(cr), "a finished connection would not come back to this server")
                ob('accept handler', len(ac) == 1 and 'handle_accept' in str(ac[0][2]) and str(c) in str(ac[0][2]) and 'error' in str(ac[0][2]) or 'lambda' in str(ac), "an accepted connection would not come back with its result")
                ob('in pool', len(added) == 1 and E.content(s, ent(added[0])) == c and added[0] in H.entries(s, 'pool')[0] or any(c in s.mon.get(('alias', i), ()) for i in H.entries(s, 'pool')[0]), "the connection being accepted must be in the pool, so that stop() can close it")
    # handle_accept and handle_ssl_handshake
    for fn in ('handle_accept', 'handle_ssl_handshake'):
        if not any('blocks' in f for f in prog.by_name.get(SV + fn, [])): continue
        for li in (0, 1):
            H = SH(OPQ)
            for E, f, kind, s, v, l, N, ob in run(fn, H, 0, li):
                ob('returns', kind == 'ret', "throws")
                ps = params(f)
                c = init(ps[0][1], 'p')
                fe = error_fact(E, s, ps[1][1])
                act = [e for e in l if e[0] in ('handle_connection', 'finish_connection', 'async_handshake_server')]
                ob('decided', fe is not None, "does not look at the result")
                ob('once', len(act) == 1 and (act[0][1] == c or act[0][1] == E.deref(c)), "the connection is not handed on exactly once")
                if act:
                    ob('failed', (act[0][0] == 'finish_connection') == (fe == 1), "a connection that failed must be finished, any other one served")
                    if act[0][0] == 'async_handshake_server':
                        fl = fact(E, s, E.content(s, ('f', E.deref(c), CN + 'm_ssl_flag')))
                        ob('handshake', fn == 'handle_accept' and fl == 1 and 'handle_ssl_handshake' in str(act[0][2]), "an unencrypted connection starts a handshake")
                    elif act[0][0] == 'handle_connection' and fn == 'handle_accept':
                        ob('encrypted', fact(E, s, E.content(s, ('f', E.deref(c), CN + 'm_ssl_flag'))) == 0, "an encrypted connection is served without a handshake")
                    ob('no lock', act[0][0] == 'async_handshake_server' or not act[0][-1], "serves or finishes a connection with a lock held")
                if fn == 'handle_accept': ob('accepts on', N.count('listen') == li, "a running server must wait for exactly one further connection after each accept, a stopped one for none")
                else: ob('accepts on', 'listen' not in N, "a handshake accepts another connection")
    # start
    for li in (0, 1):
        H = SH(OPQ); H.throws = True
        for E, f, kind, s, v, l, N, ob in run('start', H, 0, li):
            on = E.content(s, LI)
            if li:
                ob('again', not [x for x in N if x != 'acceptor.local_endpoint'] and on == 1, "starting a running server does something")
                continue
            ob('throws', kind == 'throw' or not s.mon.get('threw'), "a failure to listen is not reported")
            if kind == 'throw':
                ob('failed start', on == 0 and not set(N) & {'listen', 'add_active_user'}, "a server that failed to start counts as running")
                continue
            seq = [x for x in N if x in ('acceptor.open', 'acceptor.bind', 'acceptor.listen', 'listen', 'add_active_user')]
            ob('sequence', [x for x in seq if x.startswith('acceptor')] == ['acceptor.open', 'acceptor.bind', 'acceptor.listen'], "the acceptor is not opened, bound and made to listen in this order")
            ob('accepts', N.count('listen') == 1 and 'acceptor.listen' in N and N.index('listen') > N.index('acceptor.listen') and on == 1 and s.mon.get('listening at listen') == 1, "a started server does not accept connections, or accepts before it counts as running")
            ob('user', N.count('add_active_user') == 1, "a started server must be registered with its scheduler exactly once")
            b = [e for e in l if e[0] == 'acceptor.bind']
            ob('endpoint', b and 'm_endpoint' in str(b[0][1]), "binds another endpoint")
            for e in l:
                if e[0] == 'listen': ob('no lock', not e[-1], "accepts with the server's lock held, which accepting takes")
    # stop
    for li in (0, 1):
        for wait in (0, 1):
            for n in (0, 1, 2):
                H = SH(OPQ)
                def pre(E, S, fr, f): set_arg(S, fr, f, 0, wait)
                for E, f, kind, s, v, l, N, ob in run('stop', H, n, li, pre):
                    ob('returns', kind == 'ret', "throws")
                    if not li:
                        ob('stopped', not N, "stopping a server that does not run does something"); continue
                    ob('stops', E.content(s, LI) == 0, "a stopped server counts as running")
                    ob('closes', N.count('acceptor.close') == 1, "the acceptor is not closed exactly once")
                    closed = [e[1] for e in l if e[0] == 'connection.close']
                    fe = [e for e in l if e[0] == 'for_each']
                    allc = len(fe) == 1 and 'connection::close' in str(fe[0][3]) and (fe[0][1], fe[0][2]) == ((1 if n else 0), 0) or len(set(closed)) == n
                    if not wait: ob('closes all', n == 0 or allc, "stopping at once must close every connection")
                    else: ob('closes none', not fe and not closed, "closes connections it should wait for")
                    ob('waits', not H.entries(s, 'pool')[0], "returns although connections are open")
                    ob('user', N.count('remove_active_user') == 1, "a stopped server must be deregistered from its scheduler exactly once")
                    ob('order', not [x for x in N[N.index('remove_active_user'):] if 'wait' in x or x == 'sleep'] if 'remove_active_user' in N else False, "deregisters before the last connection has finished")
                    ob('announced', N.count('m_server_has_stopped.notify_all') == 1 and N[-1] == 'm_server_has_stopped.notify_all', "threads in join() are not woken")
    # join
    for li in (0, 1):
        H = SH(OPQ)
        for E, f, kind, s, v, l, N, ob in run('join', H, 0, li):
            ob('returns', kind == 'ret', "throws")
            on = E.content(s, LI)
            ob('waits', on == 0 or on != 1 and fact(E, s, on) == 0, "returns although the server runs")
            ob('waits only', li or not N, "waits for a server that does not run")
    # prune_connections
    for n in (0, 1, 2, 3):
        H = SH(OPQ[:-1])
        for E, f, kind, s, v, l, N, ob in run('prune_connections', H, n):
            ob('returns', kind == 'ret', "throws")
            gone = [i for m, i in s.mon.get('gone', ())]
            closed = [e[1] for e in l if e[0] == 'connection.close']
            for i in range(1, n + 1):
                p = init(('conn', i), 'p')
                u = fact(E, s, app('unique', p, tag=BOOL))
                ob('orphans', u is not None and (i in gone) == bool(u), "a connection must be dropped exactly when nothing but the pool refers to it")
                if i not in gone: ob('closes', E.deref(p) not in closed, "closes a connection that is in use")
            ob('counts', v == n - len(gone), "does not return the number of connections left")
    for li in (0, 1):
        for n in (1, 2):
            H = SH(OPQ)
            for E, f, kind, s, v, l, N, ob in run('get_connections', H, n, li):
                ob('counts', v == n - li, "the connection being accepted does not count, every other one does")
    return total


def timers(prog, R):
    total = 0
    C0 = app('guarded', tag='p')
    for fn in ('start', 'cancel', 'timer_callback'):
        f = meth(prog, TM + fn)
        H = SH(('timer',)); E = Engine(prog, H)
        A, W = init(('active',), BOOL), init(('cancelled',), BOOL)

        def setup(E, S, fr):
            S.setint(C0, ((1 << 12, 1 << 46),))
            for t in (A, W): S.setint(t, ((0, 1),))
            S.mem[('f', this, TM + 'm_conn_ptr')] = C0
            S.mem[('f', this, TM + 'm_timer_active')] = A
            S.mem[('f', this, TM + 'm_was_cancelled')] = W
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("timer::%s has no exit" % fn)
        for kind, s, v in ex:
            total += 1
            l = evs(s)
            N = [e[0] for e in l]
            def ob(k, ok, msg): R.ob("timer.%s:%s" % (fn, k), ok, where(f), msg, dict(events=[str(e)[:200] for e in l], path=s.path()))
            ob('returns', kind == 'ret', "throws")
            act, can = E.content(s, ('f', this, TM + 'm_timer_active')), E.content(s, ('f', this, TM + 'm_was_cancelled'))
            if fn == 'start':
                ob('armed', act in (1, True) and N.count('deadline.async_wait') == 1, "a started timer is not armed exactly once")
                i = N.index('deadline.async_wait') if 'deadline.async_wait' in N else 0
                ob('limit', [e[1] for e in l[:i] if e[0] == 'deadline.expires_from_now'] == [init(params(f)[0][1], ('i', 32, False))], "does not expire after the given number of seconds")
                t = str(l[i][1:]) if l else ''
                ob('continuation', 'timer_callback' in t and ('shared_from_this' in t or 'shared_ptr' in t) or 'lambda' in t, "the end of the timer is not handled by this timer, kept alive until then")
            elif fn == 'cancel':
                ob('remembered', can == 1, "a cancelled timer would still cut the connection off")
                a = fact(E, s, A)
                ob('stopped', a == 0 or 'deadline.cancel' in N, "a running timer is not stopped")
            else:
                ob('inactive', act == 0, "counts as running when it has ended")
                w = fact(E, s, W)
                cc = [e for e in l if e[0] == 'connection.cancel']
                ob('cuts off', w is not None and (len(cc) == 1 and cc[0][1] == E.deref(C0)) == (w == 0) and (not cc or w == 0), "when its time is over a timer must cancel its connection's operations exactly when it was not cancelled itself")
    return total


def c27(prog, R, tier):
    R.rule("every member of tcp::server and tcp::timer that decides what becomes of a connection interpreted abstractly over pools of up to 3 connections, a running or stopped server, failing and successful accepts and handshakes, both kinds of stop, and every exception the acceptor may throw; what other threads do while stop() or join() waits is modelled as 'all connections finished' or 'nothing happened'")
    R.assumptions += ["boost::asio calls a completion handler exactly once", "shared_ptr::unique() is exact while the server's lock is held"]
    c = [('server members', server(prog, R)), ('timers', timers(prog, R))]
    for k, v in c: R.count(k, v)
    R.floor('exits examined', sum(v for k, v in c), 40)
