"""C10, C12, C13: what delimits a body, how it is stored, and when a message is complete."""
import itertools
from ..load import AnalysisError
from ..eng import Engine, add, sub, TAG, lin, subterms, conc, s_list, Hooks
from ..step import run, retval, error_of, content, size_range, byte, BUF
from ..report import where
from .httpmsg import Scen, params, param, evs, names, copied, P, M

this = ('o', 'this')
def fl(n): return ('f', this, P + n)


def sym(name, lo, hi, w=64):
    t = ('init', ('o', name))
    TAG[t] = ('i', w, False)
    return t, lo, hi


def same(E, S, a, b):
    """the two numbers are certainly equal"""
    if a == b: return True
    try:
        d = sub(a, b)
    except Exception:
        return False
    if d == 0: return True
    r = S.rng(d)
    if r and r[0][0] == 0 == r[-1][1]: return True
    return S.lb(d) == 0 and S.lb(sub(b, a)) == 0


def le(E, S, a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    d = sub(b, a)
    r = S.rng(d)
    if r and r[0][0] >= 0: return True
    x = S.lb(d)
    return x is not None and x >= 0


# ------------------------------------------------------------------ C13
def framing(prog, R, tier):
    R.rule("for every combination of transfer coding, implied length, Content-Length (absent, malformed, zero, up to and above the maximum), message kind and headers-only mode, the end of the header selects exactly the body state, outstanding byte count, buffer size, verdict and error the framing table in the rule gives")
    f = prog.one(P + 'finish_header_parsing')
    msg, ecl = param(f, 'http::message'), param(f, 'error_code')
    st = prog.enum(P + 'message_parse_state_t')
    errs = prog.enum(P + 'error_value_t')
    CL = ('init', ('o', 'CL')); TAG[CL] = ('i', 64, False)
    MX = ('init', ('o', 'MAX')); TAG[MX] = ('i', 64, False)
    n = 0
    for chunked, implied, hascl, clcase, req, honly in itertools.product((0, 1), (0, 1), (0, 1), ('bad', 'zero', 'fits', 'over'), (0, 1), (0, 1)):
        if not hascl and clcase != 'fits': continue

        def upd_te(E, S, info):
            Scen.ev(S, 'te')
            E.write(S, info['fr'], ('f', info['obj'], M + 'm_is_chunked'), chunked)
            return 0

        def upd_cl(E, S, info):
            if clcase == 'bad': return [('throw', S, 'boost::bad_lexical_cast')]
            E.write(S, info['fr'], ('f', info['obj'], M + 'm_content_length'), 0 if clcase == 'zero' else CL)
            return 0
        H = Scen(headers={'Content-Length': hascl, 'Transfer-Encoding': 1},
                 calls={'update_transfer_encoding_using_header': upd_te, 'update_content_length_using_header': upd_cl,
                        'is_content_length_implied': lambda E, S, i: implied, 'is_chunked': None},
                 events=('update_message_with_header_data', 'finished_parsing_headers', 'set_error_'))
        E = Engine(prog, H)

        def setup(E, S, fr):
            S.setint(MX, ((0, 1 << 62),)); S.setint(CL, ((1, 1 << 62),))
            if clcase == 'fits': S.setint(sub(MX, CL), ((0, 1 << 62),))
            if clcase == 'over': S.setint(sub(CL, MX), ((1, 1 << 62),))
            S.mem[fl('m_max_content_length')] = MX
            S.mem[fl('m_is_request')] = req
            S.mem[fl('m_parse_headers_only')] = honly
            S.mem[('f', msg, M + 'm_is_chunked')] = 1 - chunked
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        # the table
        want = dict(rem=0, buf=None, cl=None, clear=False, err=None)
        if chunked: want.update(state='PARSE_CHUNKS', ret=1 if honly else 2)
        elif implied: want.update(state='PARSE_END', ret=1)
        elif hascl:
            if clcase == 'bad': want.update(state=None, ret=0, err='ERROR_INVALID_CONTENT_LENGTH')
            elif clcase == 'zero': want.update(state='PARSE_END', ret=1, cl=0)
            else:
                lim = MX if clcase == 'over' else CL
                want.update(state='PARSE_CONTENT', ret=1 if honly else 2, rem=CL, cl=lim, buf=None if honly else lim)
        elif req: want.update(state='PARSE_END', ret=1)
        else: want.update(state='PARSE_CONTENT_NO_LENGTH', ret=1 if honly else 2, clear=True)
        if want['cl'] is None: want['cl'] = 0
        key = 'frame:%s' % ('chunked' if chunked else 'implied' if implied else 'length-' + clcase if hascl else 'none')
        here = "%s, %s%s" % (key[6:], 'request' if req else 'response', ', headers only' if honly else '')
        done = 0
        for kind, S, v in ex:
            if kind == 'throw':
                R.ob(key, False, where(f), "%s: an exception escapes the parser" % here, S.path()); continue
            done += 1
            n += 1
            rv = retval(E, S, v)
            g = lambda x: E.read(S, fl(x), None)
            ge = error_of(E, S, ecl)
            pr = None
            if rv != want['ret']: pr = "returns %s, expected %s" % (rv, want['ret'])
            elif want['ret'] == 0:
                if ge[0] != 'err' or ge[1] != errs[want['err']]: pr = "fails with the wrong error"
            elif ge[0] != 'none' : pr = "sets an error on a valid message"
            elif g('m_message_parse_state') != st[want['state']]:
                inv = {b: a for a, b in st.items()}
                pr = "continues in %s, expected %s" % (inv.get(g('m_message_parse_state'), '?'), want['state'])
            elif not same(E, S, g('m_bytes_content_remaining'), want['rem']): pr = "outstanding content bytes are wrong"
            elif not same(E, S, g('m_bytes_content_read'), 0): pr = "the content counter does not start at zero"
            elif not same(E, S, E.read(S, ('f', msg, M + 'm_content_length'), None), want['cl']): pr = "the message's content length is wrong"
            elif want['buf'] is not None and not same(E, S, E.read(S, ('f', ('f', msg, M + 'm_content_buf'), M + 'content_buffer_t::m_len'), None), want['buf']):
                pr = "the content buffer is not as large as the content length"
            elif want['clear'] and E.content(S, ('f', msg, M + 'm_chunk_cache')) != ('str', ''): pr = "earlier chunk data is kept"
            elif names(S).count('update_message_with_header_data') != 1: pr = "header data is not transferred to the message once"
            elif names(S).count('finished_parsing_headers') != 1: pr = "the headers-finished callback does not run exactly once"
            R.ob(key, pr is None, where(f), "%s: %s" % (here, pr), S.path() if pr else None)
        if not done: R.ob(key, False, where(f), "%s: no outcome" % here)
    R.floor('framing outcomes', n, 30)
    R.count('framing_outcomes', n)
    sources(prog, R)


def sources(prog, R):
    """where the framing inputs come from: the header values and the status code"""
    for present in (0, 1):
        f = prog.one(M + 'update_content_length_using_header')
        E = Engine(prog, Scen(headers={'Content-Length': present}))
        fr, ex = E.entry(f)
        R.engine(E)
        for kind, S, v in ex:
            if kind == 'throw': continue
            x = E.read(S, ('f', this, M + 'm_content_length'), None)
            if not present: ok, why = x == 0, "without the header the length is not zero"
            else:
                y = x
                ok = isinstance(y, tuple) and TAG.get(y) == ('i', 64, False) and any(
                    isinstance(t, tuple) and t[0] == 'init' and t[1][0] == 'f' and str(t[1][2]).endswith('::second') for t in subterms(y)) and not any(
                    isinstance(t, tuple) and t[0] in ('cast', 'wrap') for t in subterms(y))
                why = "the length is not the full-width value of the header"
            R.ob('length-from-header', ok, where(f), why, S.path() if not ok else None)
        f = prog.one(M + 'update_transfer_encoding_using_header')

        def rx(E, S, info):
            t = ('app', 'regex_match') + tuple(('loc', a[1]) if isinstance(a, tuple) and a[0] == 'L' else a for a in info['args']); TAG[t] = ('i', 1, False)
            return t
        E = Engine(prog, Scen(headers={'Transfer-Encoding': present}, calls={'regex_match': rx, 'regex_search': rx}))
        fr, ex = E.entry(f)
        R.engine(E)
        for kind, S, v in ex:
            if kind == 'throw': continue
            x = E.read(S, ('f', this, M + 'm_is_chunked'), None)
            if not present:
                R.ob('chunked-from-header', x == 0, where(f), "without the header the message can still be chunked", S.path()); continue
            R.ob('chunked-from-header', not isinstance(x, int) and x != ('init', ('f', this, M + 'm_is_chunked')), where(f), "the transfer coding does not depend on the header")
            for t in subterms(x):
                if isinstance(t, tuple) and t[0] == 'loc' and t[1][0] == 'g':
                    g = prog.globals.get(t[1][1], {})
                    R.ob('chunked-regex', g.get('str', '').lower().strip('.*^$') == 'chunked' and 1 << 20 in g.get('ints', ()), where(f),
                         "the transfer coding is matched by %r (flags %s), expected chunked without regard to case" % (g.get('str'), g.get('ints')))
    for cls in ('request', 'response'):
        f = prog.one('pion::http::%s::is_content_length_implied' % cls)
        E = Engine(prog, Scen())
        fr, ex = E.entry(f)
        R.engine(E)
        code = ('init', ('f', this, 'pion::http::response::m_status_code')); TAG[code] = ('i', 32, False)
        meth = ('init', ('f', this, 'pion::http::response::m_request_method'))
        headeq = [('eq',) + tuple(sorted([meth, ('str', 'HEAD')], key=repr))]
        n = 0
        for kind, S, v in ex:
            v = retval(E, S, v)
            for c in (list(range(0, 1000)) + [65536 + 204, 100000]) if cls == 'response' else [0]:
                rr = S.rng(code)
                if cls == 'response' and not any(a <= c <= b for a, b in rr): continue
                for head in (0, 1) if cls == 'response' else (0,):
                    T = S
                    if cls == 'response':
                        T = E.assume(T, E.mkcmp(T, '==', code, c), True)
                        T = T and E.assume(T, headeq[0], bool(head))
                    if T is None: continue
                    n += 1
                    t = E.truth_of(T, v) if not isinstance(v, int) else bool(v)
                    want = cls == 'response' and bool(head or 100 <= c <= 199 or c in (204, 205, 304))
                    R.ob('implied:' + cls, t is not None and bool(t) == want, where(f), "%s %s%s: implied content length is %s, expected %s" % (cls, c, ' to HEAD' if head else '', t, want))
        R.floor('implied ' + cls, n, 1)


# ------------------------------------------------------------------ C10
class Body(Scen):
    def block_access(self, E, S, fr, n, sfn, a):
        if 'memset' in sfn: return
        d, s_, ln = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x for x in a[:3]]
        self.ev(S, 'copy', d, s_, ln)

    def deref(self, E, S, fr, ptr, n, mode):
        pass

    def write(self, E, S, fr, loc, val, n):
        if loc[0] == 'd' and CONT in lin(loc[1])[1]:
            self.ev(S, 'store', sub(loc[1], CONT), val)

    def call(self, E, S, fr, n, info):
        c = copied(E, S, info)
        if c is not None:
            self.ev(S, 'copy', *c)
            return [(S, c[0])]
        return Scen.call(self, E, S, fr, n, info)


CONT = ('init', ('o', 'contentbuf'))
TAG[CONT] = 'p'
REM = ('init', ('o', 'REM')); READ = ('init', ('o', 'READ')); MX = ('init', ('o', 'MAX')); AV = ('init', ('o', 'AVAIL'))
for _t in (REM, READ, MX, AV): TAG[_t] = ('i', 64, False)
BIG = 1 << 44


def body(prog, R, tier):
    R.rule("for any outstanding, already read, available and maximum byte counts: content of known length takes min(available, outstanding) bytes, finishes exactly when none are outstanding, advances every counter and the read position by that number, and either hands those bytes to the payload handler or stores the part below the maximum at the matching offset of the buffer, never past it; content without a length takes everything available; gaps reported as missing are filled and counted the same way or rejected with their own error")
    R.assumptions += ["content buffer holds min(content length, maximum) bytes while content is read (established by C13)",
                      "quantities stay below 2^44, so sums do not wrap"]
    known_length(prog, R)
    no_length(prog, R, tier)
    missing(prog, R, tier)
    storage(prog, R)


def nums(S, rem=(1, BIG)):
    S.setint(REM, (rem,)); S.setint(READ, ((0, BIG),)); S.setint(MX, ((0, BIG),)); S.setint(BUF, ((4096, 1 << 46),)); S.setint(CONT, ((4096, 1 << 46),))


def grew(E, S, name, by):
    v = E.read(S, fl(name), None)
    while isinstance(v, tuple) and v[0] in ('cast', 'wrap'): v = v[3]
    base = {'m_bytes_content_read': READ, 'm_bytes_content_remaining': REM}.get(name, ('init', fl(name)))
    return same(E, S, v, add(base, by))


def known_length(prog, R):
    f = prog.one(P + 'consume_content')
    msg = param(f, 'http::message')
    for handler in (0, 1):
        H = Body(handler=handler, calls={'get_content': lambda E, S, i: CONT})
        E = Engine(prog, H)

        def setup(E, S, fr):
            nums(S)
            S.setint(AV, ((1, BIG),))
            for n, v in (('m_read_ptr', BUF), ('m_read_end_ptr', add(BUF, AV)), ('m_bytes_content_remaining', REM), ('m_bytes_content_read', READ), ('m_max_content_length', MX)):
                S.mem[fl(n)] = v
            TAG[('init', fl('m_bytes_total_read'))] = ('i', 64, False)
            S.setint(('init', fl('m_bytes_total_read')), ((0, BIG),))
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        key = 'content:%s' % ('handler' if handler else 'buffer')
        seen = set()
        for kind, S, v in ex:
            if kind == 'throw': continue
            rv = retval(E, S, v)
            n = sub(E.read(S, fl('m_read_ptr'), 'p'), BUF)
            pr = None
            if rv == 1:
                if not (same(E, S, n, REM) and le(E, S, REM, AV)): pr = "reports the content complete without consuming exactly what was outstanding"
            elif rv == 2:
                if not (same(E, S, n, AV) and le(E, S, add(AV, 1), REM)): pr = "asks for more data although everything outstanding was available, or leaves data unread"
            else: pr = "returns %s" % (rv,)
            seen.add(rv)
            if not pr and not grew(E, S, 'm_bytes_content_read', n): pr = "the content counter does not advance by the bytes consumed"
            if not pr and not grew(E, S, 'm_bytes_total_read', n): pr = "the total counter does not advance by the bytes consumed"
            if not pr and not grew(E, S, 'm_bytes_content_remaining', sub(0, n)): pr = "the outstanding count does not drop by the bytes consumed"
            if not pr and not same(E, S, E.read(S, fl('m_bytes_last_read'), None), n): pr = "the last-read count is wrong"
            if not pr: pr = stored(E, S, handler, n, BUF)
            R.ob(key, pr is None, where(f), pr or '', S.path() if pr else None)
        R.ob(key, seen == {1, 2}, where(f), "only the verdicts %s occur" % sorted(map(str, seen)))


def stored(E, S, handler, n, src):
    hs = [e for e in evs(S) if e[0] == 'handler']
    cp = [e for e in evs(S) if e[0] == 'copy']
    st = [e for e in evs(S) if e[0] == 'store']
    if handler:
        if cp or st: return "writes to the content buffer although a payload handler is set (no buffer is guaranteed)"
        if len(hs) != 1 or not same(E, S, hs[0][1], src) or not same(E, S, hs[0][2], n): return "does not hand the bytes read to the payload handler exactly once"
        return None
    if hs: return "calls a payload handler that is not set"
    full = le(E, S, MX, READ)
    if st: return None if all(le(E, S, add(e[1], 1), MX) for e in st) else "writes past the maximum content length"
    if not cp:
        return None if full else "drops content although the buffer has room"
    if len(cp) != 1: return "stores content more than once"
    d, s_, ln = cp[0][1:]
    if not same(E, S, d, add(CONT, READ)): return "stores content at the wrong offset"
    if not same(E, S, s_, src): return "stores the wrong bytes"
    if not le(E, S, ln, n): return "copies more bytes than were read"
    if not le(E, S, add(READ, ln), MX): return "may write past the maximum content length"
    if not (same(E, S, ln, n) or same(E, S, add(READ, ln), MX)): return "stores fewer bytes than fit"
    return None


def no_length(prog, R, tier):
    f = prog.one(P + 'consume_content_as_next_chunk')
    chl = param(f, 'vector')
    for handler in (0, 1):
        for k in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5):
            H = Body(handler=handler)

            def extra(E, S, fr):
                S.mem[fl('m_max_content_length')] = 4096
                S.setint(READ, ((0, BIG),)); S.mem[fl('m_bytes_content_read')] = READ
            E, fr, ex = run(prog, f, k, {}, H, cls=P, extra=extra)
            R.engine(E)
            key = 'until-eof:%s' % ('handler' if handler else 'buffer')
            for kind, S, v in ex:
                if kind == 'throw': continue
                pr = None
                n = sub(E.read(S, fl('m_read_ptr'), 'p'), BUF)
                if n != k: pr = "consumes %s of %d bytes" % (n, k)
                elif E.read(S, fl('m_bytes_last_read'), None) != k: pr = "the last-read count is wrong"
                elif not grew(E, S, 'm_bytes_content_read', k) or not grew(E, S, 'm_bytes_total_read', k): pr = "a counter does not advance by the bytes consumed"
                else:
                    hs = [e for e in evs(S) if e[0] == 'handler']
                    c = content(E, S, chl, k)
                    if handler:
                        if c != ('init', ()): pr = "stores content although a payload handler is set"
                        elif k and (len(hs) != 1 or not same(E, S, hs[0][1], BUF) or not same(E, S, hs[0][2], k)): pr = "does not hand the bytes to the payload handler exactly once"
                        elif not k and any(not same(E, S, h[2], 0) for h in hs): pr = "hands over bytes that are not there"
                    else:
                        lo, hi = size_range(S, chl)
                        if hs: pr = "calls a payload handler that is not set"
                        elif c is None or c[0] != 'init': pr = "the stored content is replaced"
                        else:
                            m = len(c[1])
                            if c[1] != tuple(range(m)): pr = "stores the wrong bytes"
                            # base size b: m == min(k, max(0, 4096-b)) for every b that reaches this exit
                            elif m < k and lo + m < 4096: pr = "drops content although there is room"
                            elif m and hi + m > 4096: pr = "stores content beyond the maximum"
                R.ob(key, pr is None, where(f), "%d bytes available: %s" % (k, pr), S.path() if pr else None)


def missing(prog, R, tier):
    f = prog.one(P + 'parse_missing_data')
    msg, ecl = param(f, 'http::message'), param(f, 'error_code')
    lens = [l for t, l in params(f) if t.strip() in ('unsigned long', 'const unsigned long', 'std::size_t')]
    if not lens: raise AnalysisError("parse_missing_data has no length parameter any more")
    st = prog.enum(P + 'message_parse_state_t')
    cst = prog.enum(P + 'chunk_parse_state_t')
    errs = prog.enum(P + 'error_value_t')
    cache = ('f', msg, M + 'm_chunk_cache')
    SZ = ('init', fl('m_size_of_current_chunk')); RC = ('init', fl('m_bytes_read_in_current_chunk'))
    TAG[SZ] = TAG[RC] = ('i', 64, False)
    for sname in sorted(st):
        for handler in (0, 1):
            for ln in (1, 2, 3):
                for cs in (sorted(cst) if sname == 'PARSE_CHUNKS' and ln == 1 else ['PARSE_CHUNK']):
                    H = Body(handler=handler, calls={'get_content': lambda E, S, i: CONT}, events=('finish', 'compute_msg_status'))
                    E = Engine(prog, H)

                    def setup(E, S, fr):
                        nums(S, rem=(0, BIG))
                        LN = ('init', lens[0])
                        for pv in f['params']:
                            if S.mem.get(('v', fr.id, pv)) == LN: S.mem[('v', fr.id, pv)] = ln
                        S.mem[fl('m_message_parse_state')] = st[sname]
                        S.mem[fl('m_chunked_content_parse_state')] = cst[cs]
                        for n, v in (('m_bytes_content_remaining', REM), ('m_bytes_content_read', READ)): S.mem[fl(n)] = v
                        S.mem[fl('m_max_content_length')] = MX if sname == 'PARSE_CONTENT' else 4096
                        S.setint(RC, ((0, BIG),)); S.setint(SZ, ((0, BIG),))
                        S.setint(('init', fl('m_bytes_total_read')), ((0, BIG),))
                        if cs == 'PARSE_CHUNK':
                            S.mem[fl('m_size_of_current_chunk')] = add(RC, REM)
                    fr, ex = E.entry(f, setup=setup)
                    R.engine(E)
                    key = 'missing:%s%s:%s' % (sname, '' if cs == 'PARSE_CHUNK' else ':' + cs, 'handler' if handler else 'buffer')
                    for kind, S, v in ex:
                        if kind == 'throw': continue
                        rv = retval(E, S, v)
                        ge = error_of(E, S, ecl)
                        r = S.rng(REM)
                        lo, hi = r[0][0], r[-1][1]
                        hs = [e for e in evs(S) if e[0] == 'handler']
                        fin = names(S).count('finish')
                        pr = None
                        fail = None
                        took = 0
                        complete = False
                        if sname in ('PARSE_START', 'PARSE_HEADERS', 'PARSE_FOOTERS'): fail = 'ERROR_MISSING_HEADER_DATA'
                        elif sname == 'PARSE_CHUNKS':
                            if cs != 'PARSE_CHUNK': fail = 'ERROR_MISSING_CHUNK_DATA'
                            elif lo >= ln: took = ln
                            elif hi < ln: fail = 'ERROR_MISSING_CHUNK_DATA'
                            else: pr = "does not distinguish gaps that fit the chunk from gaps that do not"
                        elif sname == 'PARSE_CONTENT':
                            if hi == 0: complete = True
                            elif hi < ln: fail = 'ERROR_MISSING_TOO_MUCH_CONTENT'
                            elif lo >= ln:
                                took = ln
                                if lo == hi == ln: complete = True
                                elif lo <= ln: pr = "does not notice that the gap completes the content"
                            else: pr = "does not distinguish gaps that fit the content from gaps that do not"
                        elif sname == 'PARSE_CONTENT_NO_LENGTH': took = ln
                        elif sname == 'PARSE_END': complete = True
                        if not pr:
                            want = 0 if fail else 1 if complete else 2
                            if rv != want: pr = "returns %s, expected %s" % (rv, want)
                            elif fail and (ge[0] != 'err' or ge[1] != errs[fail]): pr = "fails with the wrong error, expected %s" % fail
                            elif not fail and ge[0] != 'none': pr = "sets an error although it does not fail"
                            elif complete and (fin != 1 or E.read(S, fl('m_message_parse_state'), None) != st['PARSE_END']): pr = "completes the message without finishing it"
                            elif not complete and fin: pr = "finishes an incomplete message"
                            elif fail and names(S).count('compute_msg_status') != 1: pr = "a failure leaves the message status undecided"
                            elif E.read(S, ('f', msg, M + 'm_has_missing_packets'), None) != 1: pr = "does not mark the message as having missing data"
                        if not pr and took:
                            if not grew(E, S, 'm_bytes_content_read', took) or not grew(E, S, 'm_bytes_total_read', took): pr = "missing bytes are not counted"
                            elif E.read(S, fl('m_bytes_last_read'), None) != took: pr = "the last-read count is wrong"
                            elif sname == 'PARSE_CONTENT' and not grew(E, S, 'm_bytes_content_remaining', -took): pr = "the outstanding count does not drop"
                            elif sname == 'PARSE_CHUNKS' and not same(E, S, E.read(S, fl('m_bytes_read_in_current_chunk'), None), add(RC, took)): pr = "the chunk position does not advance"
                            elif sname == 'PARSE_CHUNKS':
                                got = E.read(S, fl('m_chunked_content_parse_state'), None)
                                if lo == hi == ln and got != cst['PARSE_EXPECTING_CR_AFTER_CHUNK']: pr = "does not expect the end of the chunk next"
                                elif lo > ln and got != cst['PARSE_CHUNK']: pr = "leaves the chunk early"
                                elif lo <= ln < hi: pr = "does not notice that the gap completes the chunk"
                            if not pr:
                                if handler:
                                    if len(hs) != took and not (len(hs) == 1 and same(E, S, hs[0][2], took)): pr = "the payload handler gets %d of %d missing bytes" % (len(hs), took)
                                elif hs: pr = "calls a payload handler that is not set"
                                elif sname == 'PARSE_CONTENT':
                                    so = [e for e in evs(S) if e[0] == 'store']
                                    for j, e in enumerate(so):
                                        if not same(E, S, e[1], add(READ, j)): pr = "fills the gap at the wrong offset"
                                        elif not le(E, S, add(e[1], 1), MX): pr = "may write past the maximum content length"
                                    if not pr and len(so) < took and not le(E, S, MX, add(READ, len(so))): pr = "leaves part of the gap unfilled"
                                    if not pr and len(so) > took: pr = "writes past the gap"
                                else:
                                    b = content(E, S, cache, 0)
                                    c = E.content(S, cache)
                                    parts = c[1:] if isinstance(c, tuple) and c[0] == 'cat' else (c,)
                                    m = sum(len(x[1]) if x[0] == 'str' else 1 for x in parts[1:])
                                    slo, shi = size_range(S, cache)
                                    if parts[0] != ('init', cache): pr = "the stored content is replaced"
                                    elif m > took: pr = "fills in more than is missing"
                                    elif m < took and slo + m < 4096: pr = "leaves part of the gap unfilled"
                                    elif m and shi + m > 4096: pr = "stores content beyond the maximum"
                        elif not pr and not took:
                            if hs or [e for e in evs(S) if e[0] == 'store']: pr = "stores content for a gap it does not take"
                        R.ob(key, pr is None, where(f), "gap of %d bytes in %s: %s" % (ln, sname, pr), S.path() if pr else None)


def storage(prog, R):
    """the content buffer itself, and the conversion of collected chunks to content"""
    f = prog.one(M + 'concatenate_chunks')
    E = Engine(prog, Body())
    fr, ex = E.entry(f)
    R.engine(E)
    cache = ('f', this, M + 'm_chunk_cache')
    for kind, S, v in ex:
        if kind == 'throw': continue
        n = E.size_of(('init', cache))
        pr = None
        if not same(E, S, E.read(S, ('f', this, M + 'm_content_length'), None), n): pr = "the content length is not the number of bytes collected"
        elif not same(E, S, E.read(S, ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_len'), None), n): pr = "the content buffer does not hold the bytes collected"
        else:
            cp = [e for e in evs(S) if e[0] == 'copy']
            r = S.rng(n)
            if not cp and not (r and r[-1][1] == 0): pr = "collected chunks are not copied into the content"
            for e in cp:
                if not any(isinstance(t, tuple) and t == ('init', cache) for t in subterms(e[2])): pr = "something else than the collected chunks is copied"
        R.ob('concatenate', pr is None, where(f), pr or '', S.path() if pr else None)
    f = prog.one(M + 'content_buffer_t::resize')
    E = Engine(prog, Body())
    fr, ex = E.entry(f)
    R.engine(E)
    B = M + 'content_buffer_t::'
    L = ('init', params(f)[0][1])
    for kind, S, v in ex:
        if kind == 'throw': continue
        g = lambda x: E.read(S, ('f', this, B + x), None)
        pr = None
        r = S.rng(L)
        m1 = lambda a, b: r[-1][1] < (1 << 64) - 1
        if not same(E, S, g('m_len'), L): pr = "the recorded size is not the size asked for"
        elif r[-1][1] == 0:
            if g('m_ptr') != E.addr(('f', this, B + 'm_empty')): pr = "an empty buffer does not point at its terminator"
        elif g('m_ptr') != g('m_buf'): pr = "the data pointer is not the allocated buffer"
        elif r[-1][1] == (1 << 64) - 1: pr = "the allocation size wraps to zero for the largest length"
        else:
            al = [t[3][1] for t in subterms(g('m_buf')) if isinstance(t, tuple) and t[0] == 'sym' and len(t) > 3 and isinstance(t[3], tuple) and t[3][0] == 'newarr']
            if not al or not le(E, S, add(L, 1), al[0]): pr = "the allocation has no room for the content and its terminator"
            term = [l for l, x in S.mem.items() if x == 0 and l[0] == 'd' and g('m_buf') in lin(l[1])[1] and L in [strip(a) for a in lin(sub(l[1], g('m_buf')))[1]] and lin(l[1])[0] == 0]
            if not pr and not term: pr = "the buffer is not terminated at its length"
        R.ob('buffer', pr is None, where(f), pr or '', S.path() if pr else None)


def strip(t):
    while isinstance(t, tuple) and t[0] in ('cast', 'wrap'): t = t[3]
    return t


# ------------------------------------------------------------------ C12
def completion(prog, R, tier):
    R.rule("parse() is the loop the state diagram gives: for every message state and every verdict (and state change) of the part parsers it dispatches to the right one, continues while undecided and input remains, finishes the message exactly once on success, decides its status on failure, and returns the verdict with the sum of the bytes its parts consumed; finish() and compute_msg_status() set validity, status and content for every state")
    orchestrate(prog, R, tier)
    missing(prog, R, tier)
    finishing(prog, R)
    transfer(prog, R)


def orchestrate(prog, R, tier):
    f = prog.one(P + 'parse')
    msg = param(f, 'http::message')
    st = prog.enum(P + 'message_parse_state_t')
    inv = {v: k for k, v in st.items()}
    SUB = {'parse_headers': ('PARSE_HEADERS', 'PARSE_FOOTERS'), 'parse_chunks': ('PARSE_CHUNKS',), 'consume_content': ('PARSE_CONTENT',),
           'consume_content_as_next_chunk': ('PARSE_CONTENT_NO_LENGTH',), 'finish_header_parsing': ('PARSE_HEADERS',)}
    n = 0

    def scripts():
        """(start state, [(sub, verdict, new state or None, input left)]) up to three parts long"""
        def steps(state):
            if state in ('PARSE_HEADERS', 'PARSE_FOOTERS'):
                yield ('parse_headers', 0, None), None
                yield ('parse_headers', 2, None), None
                if state == 'PARSE_FOOTERS': yield ('parse_headers', 1, None), None
                else:
                    yield ('parse_headers', 1, None), ('finish_header_parsing', 0, None)
                    yield ('parse_headers', 1, None), ('finish_header_parsing', 1, 'PARSE_END')
                    yield ('parse_headers', 1, None), ('finish_header_parsing', 1, 'PARSE_CONTENT')
                    for t in ('PARSE_CHUNKS', 'PARSE_CONTENT', 'PARSE_CONTENT_NO_LENGTH'):
                        yield ('parse_headers', 1, None), ('finish_header_parsing', 2, t)
            elif state == 'PARSE_CHUNKS':
                for v in (0, 1, 2): yield ('parse_chunks', v, None), None
                yield ('parse_chunks', 1, 'PARSE_FOOTERS'), None
            elif state == 'PARSE_CONTENT':
                for v in (1, 2): yield ('consume_content', v, None), None
            elif state == 'PARSE_CONTENT_NO_LENGTH':
                yield ('consume_content_as_next_chunk', 2, None), None
        depth = 3 if tier == 'quick' else 4

        def go(state, acc):
            if state == 'PARSE_END' or len([x for x in acc if x[0] != 'finish_header_parsing']) >= depth:
                return
            for a, b in steps(state):
                if state == 'PARSE_CONTENT_NO_LENGTH': lefts = (0,)
                else: lefts = (0, 1)
                for left in lefts:
                    seq = acc + [a + (left,)] + ([b + (left,)] if b else [])
                    last = seq[-1]
                    v = last[1]
                    if a[0] == 'parse_chunks' and a[1] == 1 and a[2]: v = 2      # footers follow
                    ns = last[2] or state
                    if v != 2 or not left: yield seq
                    else:
                        for x in go(ns, seq): yield x
        for s0 in ('PARSE_START', 'PARSE_HEADERS', 'PARSE_FOOTERS', 'PARSE_CHUNKS', 'PARSE_CONTENT', 'PARSE_CONTENT_NO_LENGTH'):
            for seq in go('PARSE_HEADERS' if s0 == 'PARSE_START' else s0, []): yield s0, seq
        yield 'PARSE_END', []
    for s0, seq in scripts():
        for handler in (0, 1):
            for miss in (0, 1) if len(seq) <= 1 else (0,):
                TOT = [('init', ('o', 'n%d' % i)) for i in range(len(seq))]

                def part(name):
                    def call(E, S, info):
                        i = len([x for x in names(S) if x in SUB])
                        state = inv.get(E.read(S, fl('m_message_parse_state'), None))
                        Scen.ev(S, name, state)
                        if i >= len(seq) or seq[i][0] != name:
                            Scen.ev(S, 'unexpected', name, state)
                            return []
                        _, v, ns, left = seq[i]
                        if ns: E.write(S, info['fr'], fl('m_message_parse_state'), st[ns])
                        if name != 'finish_header_parsing': E.write(S, info['fr'], fl('m_bytes_last_read'), TOT[i])
                        E.write(S, info['fr'], fl('m_read_ptr'), add(BUF, i))
                        E.write(S, info['fr'], fl('m_read_end_ptr'), add(BUF, i + left))
                        if name == 'consume_content_as_next_chunk': return TOT[i]
                        return [(S, E.tmp(S, info['fr'], info['nid'], v))]
                    return call

                def fin(E, S, info):
                    Scen.ev(S, 'finish', E.read(S, fl('m_message_parse_state'), None))
                    return 0

                def status(E, S, info):
                    Scen.ev(S, 'status', info['args'][-1])
                    return 0
                bad = []
                calls = {k: part(k) for k in SUB}
                calls.update(finish=fin, compute_msg_status=status)
                H = Scen(handler=handler, calls=calls, events=('concatenate_chunks',))
                E = Engine(prog, H)

                def setup(E, S, fr):
                    S.setint(BUF, ((4096, 1 << 46),))
                    for i, t in enumerate(TOT):
                        TAG[t] = ('i', 64, False); S.setint(t, ((0, 1 << 40),))
                    S.mem[fl('m_message_parse_state')] = st[s0]
                    S.mem[fl('m_read_ptr')] = BUF; S.mem[fl('m_read_end_ptr')] = add(BUF, 1)
                    S.mem[('f', msg, M + 'm_has_missing_packets')] = miss
                fr, ex = E.entry(f, setup=setup)
                R.engine(E)
                key = 'parse:%s' % s0
                desc = "from %s, parts %s" % (s0, ', '.join('%s=%s%s' % (a, 'false true undecided'.split()[b], '->' + c if c else '') for a, b, c, d in seq))
                if not ex: R.ob(key, False, where(f), "%s: no outcome (a part parser is called in the wrong state or out of order)" % desc)
                last = seq[-1] if seq else (None, 1, None, 0)
                want = last[1]
                if last[0] == 'parse_chunks' and last[1] == 1 and last[2]: want = 2
                chunks_done = [x for x in seq if x[0] == 'parse_chunks' and x[1] == 1]
                cur, end = s0, 'PARSE_HEADERS' if s0 == 'PARSE_START' else s0
                for x in seq: end = x[2] or end
                total = 0
                for i, x in enumerate(seq):
                    if x[0] != 'finish_header_parsing': total = add(total, TOT[i])
                for kind, S, v in ex:
                    if kind == 'throw': continue
                    n += 1
                    rv = retval(E, S, v)
                    ev = evs(S)
                    pr = None
                    got = [e[0] for e in ev if e[0] in SUB]
                    if rv != want: pr = "returns %s, expected %s" % (rv, want)
                    elif got != [x[0] for x in seq]: pr = "part parsers run: %s" % got
                    elif [e for e in ev if e[0] in SUB and e[1] not in SUB[e[0]]]: pr = "a part parser runs in the wrong state"
                    elif names(S).count('finish') != (want == 1): pr = "the message is %s" % ("finished although it is not complete" if want != 1 else "not finished exactly once")
                    elif want == 1 and [e for e in ev if e[0] == 'finish' and e[1] != st['PARSE_END']]: pr = "the message is finished before it is in its end state"
                    elif want == 0 and [e[1] for e in ev if e[0] == 'status'] != [0]: pr = "a failed message does not get its status"
                    elif want != 0 and 'status' in names(S): pr = "the status is decided although parsing did not fail"
                    elif names(S).count('concatenate_chunks') != (1 if chunks_done and not handler else 0): pr = "collected chunks are joined %d times" % names(S).count('concatenate_chunks')
                    elif not same(E, S, E.read(S, fl('m_bytes_last_read'), None), total): pr = "the bytes reported are not the sum of the parts"
                    elif want == 1 and E.read(S, fl('m_message_parse_state'), None) != st['PARSE_END']: pr = "a complete message is not in its end state"
                    elif want == 2 and E.read(S, fl('m_message_parse_state'), None) != st[end]: pr = "the message state is changed"
                    elif miss and E.read(S, ('f', msg, M + 'm_has_data_after_missing'), None) != 1: pr = "data after a gap is not recorded"
                    elif not miss and E.read(S, ('f', msg, M + 'm_has_data_after_missing'), None) == 1: pr = "records data after a gap that does not exist"
                    R.ob(key, pr is None, where(f), "%s: %s" % (desc, pr), S.path() if pr else None)
    R.count('parse_histories', n)
    R.floor('parse histories', n, 60)


def finishing(prog, R):
    st = prog.enum(P + 'message_parse_state_t')
    cst = prog.enum(P + 'chunk_parse_state_t')
    ds = prog.enum(M + 'data_status_t')
    f = prog.one(P + 'compute_msg_status')
    msg = param(f, 'http::message')
    flag = [l for t, l in params(f) if t.strip() in ('bool', 'const bool')]
    for missing, after, ok in itertools.product((0, 1), repeat=3):
        E = Engine(prog, Scen())

        def setup(E, S, fr):
            for pv in f['params']:
                if flag and S.mem.get(('v', fr.id, pv)) == ('init', flag[0]): S.mem[('v', fr.id, pv)] = ok
            S.mem[('f', msg, M + 'm_has_missing_packets')] = missing
            S.mem[('f', msg, M + 'm_has_data_after_missing')] = after
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        want = ds['STATUS_OK' if ok and not missing else 'STATUS_PARTIAL' if missing and after else 'STATUS_TRUNCATED']
        for kind, S, v in ex:
            R.ob('status', E.read(S, ('f', msg, M + 'm_status'), None) == want, where(f), "missing=%d data after=%d parsed=%d gives the wrong status" % (missing, after, ok))
    f = prog.one(P + 'finish')
    msg = param(f, 'http::message')
    for sname, handler, cs, req, honly in itertools.product(sorted(st), (0, 1), sorted(cst), (0, 1), (0, 1)):
        if sname != 'PARSE_CHUNKS' and cs != 'PARSE_CHUNK': continue
        if sname == 'PARSE_CHUNKS' and (req or honly): continue

        def status(E, S, info):
            Scen.ev(S, 'status', info['args'][-1]); return 0

        def form(E, S, info):
            Scen.ev(S, 'form', info['nm'], tuple(info['args'])); return 1
        H = Scen(handler=handler, calls={'compute_msg_status': status, 'parse_url_encoded': form, 'parse_multipart_form_data': form, 'get_content': lambda E, S, i: CONT},
                 events=('concatenate_chunks', 'update_message_with_header_data'), headers={'Content-Type': 1})
        E = Engine(prog, H)
        OLD = ('init', ('o', 'oldlen')); TAG[OLD] = ('i', 64, False)

        def setup(E, S, fr):
            nums(S)
            S.setint(OLD, ((0, BIG),))
            S.mem[fl('m_message_parse_state')] = st[sname]
            S.mem[fl('m_chunked_content_parse_state')] = cst[cs]
            S.mem[fl('m_bytes_content_read')] = READ
            S.mem[fl('m_max_content_length')] = MX
            S.mem[fl('m_is_request')] = req
            S.mem[fl('m_parse_headers_only')] = honly
            S.mem[('f', msg, M + 'm_content_length')] = OLD
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        valid = {'PARSE_START': 0, 'PARSE_END': 1, 'PARSE_HEADERS': 0, 'PARSE_FOOTERS': 0, 'PARSE_CONTENT': 0,
                 'PARSE_CHUNKS': int(cs == 'PARSE_CHUNK_SIZE_START'), 'PARSE_CONTENT_NO_LENGTH': 1}.get(sname)
        if valid is None: raise AnalysisError("message state %s is not in the specification" % sname)
        got = 0
        for kind, S, v in ex:
            if kind == 'throw': continue
            got += 1
            pr = None
            cl = E.read(S, ('f', msg, M + 'm_content_length'), None)
            ln = E.read(S, ('f', ('f', msg, M + 'm_content_buf'), M + 'content_buffer_t::m_len'), None)
            nm = names(S)
            if E.read(S, ('f', msg, M + 'm_is_valid'), None) != valid: pr = "the message is marked %s" % ('invalid' if valid else 'valid')
            elif sname != 'PARSE_START' and [e[1] for e in evs(S) if e[0] == 'status'] != [valid]: pr = "the status does not follow from the message's validity"
            elif sname in ('PARSE_START', 'PARSE_HEADERS', 'PARSE_FOOTERS') and (cl != 0 or ln != 0): pr = "a message without content keeps content"
            elif sname in ('PARSE_HEADERS', 'PARSE_FOOTERS') and 'update_message_with_header_data' not in nm: pr = "what was read of the head is not transferred to the message"
            elif sname == 'PARSE_CONTENT' and not (same(E, S, cl, READ) and le(E, S, add(READ, 1), MX) or same(E, S, cl, OLD) and le(E, S, MX, READ)): pr = "the content length of a truncated message is not what was stored"
            elif sname in ('PARSE_CHUNKS', 'PARSE_CONTENT_NO_LENGTH') and nm.count('concatenate_chunks') != (not handler): pr = "collected content is joined %d times" % nm.count('concatenate_chunks')
            elif sname not in ('PARSE_CHUNKS', 'PARSE_CONTENT_NO_LENGTH') and 'concatenate_chunks' in nm: pr = "content is replaced by collected chunks"
            else:
                forms = [e for e in evs(S) if e[0] == 'form']
                if forms and (not req or handler or honly): pr = "form content is decoded although it is not available"
                if len(forms) > 1: pr = "form content is decoded twice"
                for e in forms:
                    if not any(a == CONT for a in e[2]) or not any(same(E, S, a, cl) for a in e[2] if not (isinstance(a, tuple) and a[0] == 'L') and TAG.get(a) != 'p' and a != CONT): pr = "form decoding does not get the content and its length"
            R.ob('finish:%s' % sname, pr is None, where(f), "in %s%s: %s" % (sname, ' with payload handler' if handler else '', pr), S.path() if pr else None)
        if not got: R.ob('finish:%s' % sname, False, where(f), "in %s: no outcome" % sname)
    # end of input
    f = prog.one(P + 'check_premature_eof')
    for sname in sorted(st):
        def fin(E, S, info):
            Scen.ev(S, 'finish', E.read(S, fl('m_message_parse_state'), None)); return 0
        E = Engine(prog, Scen(calls={'finish': fin}, events=('concatenate_chunks',)))

        def setup(E, S, fr): S.mem[fl('m_message_parse_state')] = st[sname]
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        for kind, S, v in ex:
            if kind == 'throw': continue
            ok = sname == 'PARSE_CONTENT_NO_LENGTH'
            rv = retval(E, S, v)
            pr = None
            if rv != int(not ok): pr = "end of input in %s is %s" % (sname, 'taken for a complete message' if rv == 0 else 'taken for a premature end')
            elif ok and names(S).count('finish') != 1: pr = "a message ended by the end of input is not finished"
            elif ok and 'concatenate_chunks' not in names(S) and [e[1] for e in evs(S) if e[0] == 'finish'] != [st['PARSE_CONTENT_NO_LENGTH']]: pr = "content read until the end of input is lost"
            elif not ok and 'finish' in names(S): pr = "a truncated message is finished as if complete"
            R.ob('eof', pr is None, where(f), pr or '', S.path() if pr else None)


def transfer(prog, R):
    """what the head said reaches the message object"""
    f = prog.one(P + 'update_message_with_header_data')
    EV = ('set_method', 'set_resource', 'set_query_string', 'set_status_code', 'set_status_message', 'parse_url_encoded', 'parse_cookie_header')
    FLD = {'set_method': 'm_method', 'set_resource': 'm_resource', 'set_query_string': 'm_query_string', 'set_status_code': 'm_status_code', 'set_status_message': 'm_status_message'}
    for req in (0, 1):
        class H_(Scen):
            unroll = 12

            def call(self, E, S, fr, n, info):
                nm = info['nm'] or ''
                if nm in EV and n.get('inroot'):
                    c = tuple(E.content(S, a[1]) if isinstance(a, tuple) and a and a[0] == 'L' else a for a in info['args'])
                    if nm == 'parse_cookie_header' and names(S).count(nm) > 1: return []      # two headers show the loop
                    self.ev(S, nm, c, tuple(info['args']))
                    return [(S, 1)]
                if nm in ('equal_range', 'find', 'lower_bound') and info['args'] and info['obj'] and 'm_headers' in str(info['obj']):
                    self.ev(S, 'lookup', E.content_args(S, info['args'])[0])
                return Scen.call(self, E, S, fr, n, info)
        E = Engine(prog, H_())

        def setup(E, S, fr): S.mem[fl('m_is_request')] = req
        try: fr, ex = E.entry(f, setup=setup)
        except AnalysisError as e:
            if 'loop' not in str(e): raise
            raise AnalysisError("the loop over cookie headers cannot be followed: %s" % e)
        R.engine(E)
        n, cook, sq = 0, 0, 0
        for kind, S, v in ex:
            if kind == 'throw': continue
            n += 1
            ev = evs(S)
            pr = None
            want = ('set_method', 'set_resource', 'set_query_string') if req else ('set_status_code', 'set_status_message')
            for w in want:
                g = [e for e in ev if e[0] == w]
                if len(g) != 1 or g[0][1][0] != ('init', fl(FLD[w])): pr = "%s does not carry %s to the message" % (w, FLD[w])
            for w in set(FLD) - set(want):
                if [e for e in ev if e[0] == w]: pr = "%s is called on a %s" % (w, 'request' if req else 'response')
            q = [e for e in ev if e[0] == 'parse_url_encoded']
            r = S.rng(E.size_of(('init', fl('m_query_string'))))
            empty = r and r[-1][1] == 0
            some = r and r[0][0] > 0
            if q and not req: pr = pr or "a response has query parameters"
            if some and req and len(q) != 1: pr = pr or "the query string is decoded %d times" % len(q)
            for e in q:
                sq += 1
                t = repr(e[1][1:])
                if 'm_query_string' not in t: pr = pr or "what is decoded is not the query string"
                if 'm_queries' not in repr(e[2][0]) and 'm_query_params' not in repr(e[2][0]): pr = pr or "query parameters go to %s" % (e[2][0],)
            c = [e for e in ev if e[0] == 'parse_cookie_header']
            cook += len(c)
            lk = [e[1] for e in ev if e[0] == 'lookup']
            want = ('str', 'Cookie' if req else 'Set-Cookie')
            if want not in lk: pr = pr or "the %s headers are not looked up" % want[1]
            for e in c:
                if int(e[1][-1]) != int(not req): pr = pr or "cookies of a %s are decoded as those of a %s" % (('request', 'response') if req else ('response', 'request'))
                if 'm_cookie' not in repr(e[2][0]): pr = pr or "cookies go to %s" % (e[2][0],)
            R.ob('transfer:%s' % ('request' if req else 'response'), pr is None, where(f), pr or '', S.path() if pr else None)
        R.ob('transfer:%s' % ('request' if req else 'response'), n and cook and (sq or not req), where(f), "no path decodes %s" % ('cookies' if not cook else 'query parameters'))
    # form content
    f = prog.one(P + 'finish')
    msg = param(f, 'http::message')
    st = prog.enum(P + 'message_parse_state_t')
    for ct, want in (('application/x-www-form-urlencoded', 'parse_url_encoded'), ('application/x-www-form-urlencoded; charset=UTF-8', 'parse_url_encoded'),
                     ('multipart/form-data; boundary=x', 'parse_multipart_form_data'), ('text/plain', None), ('', None), ('application/x-www-form', None), ('multipart/form', None), ('xapplication/x-www-form-urlencoded', None)):
        for req, handler, honly in itertools.product((0, 1), repeat=3):
            def form(E, S, info):
                Scen.ev(S, 'form', info['nm']); return 1

            def hdr(E, S, info):
                if E.content_args(S, info['args'])[:1] != (('str', 'Content-Type'),): return None
                return [(S, E.tmp(S, info['fr'], info['nid'], ('str', ct)))]
            E = Engine(prog, Scen(handler=handler, calls={'parse_url_encoded': form, 'parse_multipart_form_data': form, 'get_header': hdr}, events=('concatenate_chunks', 'compute_msg_status')))

            def setup(E, S, fr):
                S.mem[fl('m_message_parse_state')] = st['PARSE_END']
                S.mem[fl('m_is_request')] = req
                S.mem[fl('m_parse_headers_only')] = honly
            fr, ex = E.entry(f, setup=setup)
            R.engine(E)
            w = [want] if want and req and not handler and not honly else []
            for kind, S, v in ex:
                if kind == 'throw': continue
                g = [e[1] for e in evs(S) if e[0] == 'form']
                R.ob('form-content', g == w, where(f), "content of type %r in a %s%s is decoded by %s, expected %s" % (ct, 'request' if req else 'response', ' with a payload handler' if handler else '', g or 'nothing', w or 'nothing'), S.path() if g != w else None)
