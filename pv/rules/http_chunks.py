"""C09: chunked transfer coding."""
from ..load import AnalysisError
from ..eng import Hooks, add, sub, TAG, subterms, s_list, lin
from ..step import run, retval, error_of, content, size_range, byte, BUF
from ..report import where

P = 'pion::http::parser::'
CR, LF, SP, HT = 13, 10, 32, 9
MAX = 4096
SIZE_DIGITS = 16
INF = 1 << 62


def hexd(b): return 48 <= b <= 57 or 97 <= b <= 102 or 65 <= b <= 70


class O(object):
    __slots__ = ('state', 'size_str', 'cache', 'read', 'ret', 'err', 'used', 'guard', 'size', 'foot', 'ph')

    def __init__(s, state):
        # read: bytes added to the current chunk; size: None (unchanged) or 'parsed'
        s.state, s.size_str, s.cache, s.read, s.ret, s.err, s.used, s.guard, s.size, s.foot, s.ph = state, ('init', ()), ('init', ()), 0, None, None, 0, {}, None, False, ()

    def copy(s):
        o = O(s.state)
        for k in O.__slots__: setattr(o, k, getattr(s, k))
        o.guard = dict(s.guard)
        return o


def split(o, key, cut):
    """situations where the quantity is < cut / >= cut"""
    lo, hi = o.guard.get(key, (0, INF))
    res = []
    if lo < cut:
        x = o.copy(); x.guard[key] = (lo, min(hi, cut - 1)); res.append((x, False))
    if hi >= cut:
        x = o.copy(); x.guard[key] = (max(lo, cut), hi); res.append((x, True))
    return res


def store(x, i):
    base, bs = x.cache
    res = []
    for y, full in split(x, 'cache', MAX - len(bs)):
        if not full: y.cache = (base, bs + (i,))
        res.append(y)
    return res


def spec(o, i, k, b, handler):
    s = o.state
    o = o.copy()
    o.used = i + 1

    def go(st): o.state = st; return [o]

    def err():
        o.ret, o.err = 0, 'CHUNK_CHAR'
        return [o]
    if s == 'CHUNK_SIZE_START':
        if hexd(b): o.size_str = ('', (i,)); return go('CHUNK_SIZE')
        if b in (SP, HT, CR, LF): return [o]
        return err()
    if s == 'CHUNK_SIZE':
        if hexd(b):
            base, bs = o.size_str
            if base == '': 
                o.size_str = (base, bs + (i,)); return [o]
            res = []
            for x, full in split(o, 'digits', SIZE_DIGITS - len(bs)):
                if full: x.ret, x.err = 0, 'CHUNK_CHAR'
                else: x.size_str = (base, bs + (i,))
                res.append(x)
            return res
        if b == CR: return go('EXPECTING_LF_AFTER_CHUNK_SIZE')
        if b in (SP, HT): return go('EXPECTING_CR_AFTER_CHUNK_SIZE')
        if b == ord(';'): return go('EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE')
        return err()
    if s == 'EXPECTING_IGNORED_TEXT_AFTER_CHUNK_SIZE':
        return go('EXPECTING_LF_AFTER_CHUNK_SIZE') if b == CR else [o]
    if s == 'EXPECTING_CR_AFTER_CHUNK_SIZE':
        if b == CR: return go('EXPECTING_LF_AFTER_CHUNK_SIZE')
        return [o] if b in (SP, HT) else err()
    if s == 'EXPECTING_LF_AFTER_CHUNK_SIZE':
        if b != LF: return err()
        res = []
        for x, nz in split(o, 'num', 1):
            x.size = 'parsed'; x.read = 'zero'
            x.state = 'CHUNK' if nz else 'EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK'
            res.append(x)
        return res
    if s == 'CHUNK':
        if o.size == 'parsed': return None        # beyond the bound of the table
        if handler:
            # everything available of this chunk goes to the handler at once
            avail = k - i
            res = []
            rd = o.read
            for x, more in split(o, 'rem', avail + rd):
                lo, hi = x.guard['rem']
                if more:
                    x.ph = x.ph + ((i, avail),); x.read = rd + avail; x.used = k
                    for y, left in split(x, 'rem', avail + rd + 1):
                        if not left: y.state = 'EXPECTING_CR_AFTER_CHUNK'
                        y.used = ('jump', k)
                        res.append(y)
                else:
                    for n in range(max(lo, rd + 1), hi + 1):
                        y = x.copy(); y.guard['rem'] = (n, n)
                        y.ph = y.ph + ((i, n - rd),); y.read = n
                        y.state = 'EXPECTING_CR_AFTER_CHUNK'; y.used = ('jump', i + n - rd)
                        res.append(y)
            return res
        res = []
        rd = o.read
        for x in store(o, i):
            x.read = rd + 1
            for y, left in split(x, 'rem', rd + 2):
                if not left: y.state = 'EXPECTING_CR_AFTER_CHUNK'
                res.append(y)
        return res
    if s == 'EXPECTING_CR_AFTER_CHUNK': return go('EXPECTING_LF_AFTER_CHUNK') if b == CR else err()
    if s == 'EXPECTING_LF_AFTER_CHUNK': return go('CHUNK_SIZE_START') if b == LF else err()
    if s == 'EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK':
        if b == CR: return go('EXPECTING_FINAL_LF_AFTER_LAST_CHUNK')
        o.ret, o.foot, o.used = 1, True, i
        return [o]
    if s == 'EXPECTING_FINAL_LF_AFTER_LAST_CHUNK':
        if b != LF: return err()
        o.ret = 1
        return [o]
    raise AnalysisError("chunk parser state %s is not in the specification" % s)


def situations(s0, bs, handler):
    o = O(s0)
    if s0 == 'CHUNK': o.guard['rem'] = (1, INF)
    cur = [(o, 0)]
    out = []
    while cur:
        o, i = cur.pop()
        if o.ret is not None or i >= len(bs):
            if o.ret is None: o.ret = 2
            out.append(o); continue
        r = spec(o, i, len(bs), bs[i], handler)
        if r is None: return None
        for x in r:
            j = i + 1
            if isinstance(x.used, tuple): j = x.used[1]; x.used = j
            cur.append((x, j))
    return out


class HH(Hooks):
    unroll = 60
    max_states = 100000
    control = frozenset([P + 'm_chunked_content_parse_state'])

    def call(self, E, S, fr, n, info):
        if (info['cls'] or '').startswith('boost::function') and info['nm'] == 'operator()':
            k = len([1 for x in S.mon if isinstance(x, tuple) and x[0] == 'ph'])
            S.mon[('ph', k)] = tuple(x for x in info['args'])
        return None


def rep(s0, i, cache={}):
    """byte representatives: every byte that some state of the table distinguishes, plus one per class"""
    if 'r' not in cache:
        sig = {}
        for b in range(-128, 128):
            k = tuple((hexd(b), b in (SP, HT), b == CR, b == LF, b == ord(';')))
            sig.setdefault(k, []).append(b)
        cache['r'] = list(sig.values())
    return cache['r']


def chunks(prog, R, tier):
    R.rule("for every chunk-parser state, every sequence of one and two (three) input bytes, with and without a payload handler, the abstract transfer function (verdict, error, next state, bytes consumed and counted, stored or delivered content, parsed size) equals the chunked-coding table written in the rule")
    R.assumptions += ["in the chunk-data state at least one byte of the chunk is outstanding (established by the other transitions of the table)",
                      "strtol and relatives convert as documented", "the content limit is represented by one value (%d)" % MAX]
    f = prog.one(P + 'parse_chunks')
    en = prog.enum(P + 'chunk_parse_state_t')
    inv = {v: k for k, v in en.items()}
    errs = prog.enum(P + 'error_value_t')
    msgst = prog.enum(P + 'message_parse_state_t')
    hst = prog.enum(P + 'header_parse_state_t')
    this = ('o', 'this')
    pn = {v['id']: v for v in f['vars']}
    names = [(pn[pv]['type'], ('o', 'arg', pn[pv]['name'] or pv)) for pv in f['params']]
    ecl = [l for t, l in names if 'error_code' in t]
    chl = [l for t, l in names if 'vector' in t]
    if not ecl or not chl: raise AnalysisError("parse_chunks has lost its parameters")
    ecl, chl = ecl[0], chl[0]
    fl = lambda n: ('f', this, P + n)
    r0, s1 = ('init', fl('m_bytes_read_in_current_chunk')), ('init', fl('m_size_of_current_chunk'))
    total = 0
    for name in sorted(en):
        s0 = name[len('PARSE_'):]
        for handler in (0, 1):
            for k in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                def extra(E, S, fr):
                    TAG[r0] = TAG[s1] = ('i', 64, False)
                    S.mem[fl('m_bytes_read_in_current_chunk')] = r0
                    S.setint(r0, ((0, 1 << 40),))
                    if s0 == 'CHUNK':
                        rem = ('init', ('o', 'rem'))
                        TAG[rem] = ('i', 64, False)
                        S.setint(rem, ((1, 1 << 40),))
                        S.mem[fl('m_size_of_current_chunk')] = add(r0, rem)
                    S.mem[fl('m_payload_handler')] = ('app', 'handler') if handler else ('app', 'nohandler')
                    TAG[('app', 'handler')] = TAG[('app', 'nohandler')] = 'o'
                    S.mem[fl('m_max_content_length')] = MAX

                class HX(HH):
                    def call(self, E, S, fr, n, info):
                        nm = info['nm'] or ''
                        if (info['cls'] or '').startswith('boost::function') and info['obj'] == fl('m_payload_handler'):
                            if nm == 'operator()': return HH.call(self, E, S, fr, n, info)
                            if nm == 'empty': return [(S, int(not handler))]
                            if nm == 'operator!': return [(S, int(not handler))]
                            if nm.startswith('operator '): return [(S, int(handler))]
                        return None
                E, fr, ex = run(prog, f, k, {'m_chunked_content_parse_state': en[name]}, HX(), cls=P, extra=extra)
                R.engine(E)
                for kind, S, v in ex:
                    R.count('abstract_exits')
                    if kind == 'throw': continue
                    combos = [()]
                    for i in range(k):
                        B = set(s_list(S.rng(byte(i))))
                        combos = [c + (a[0],) for c in combos for a in ([x for x in y if x in B] for y in rep(s0, i)) if a]
                    rv = retval(E, S, v)
                    st = E.read(S, fl('m_chunked_content_parse_state'), None)
                    ge = error_of(E, S, ecl)
                    used = add(E.read(S, fl('m_read_ptr'), 'p'), BUF, -1)
                    rem = S.rng(('init', ('o', 'rem'))) if s0 == 'CHUNK' else None
                    num = None
                    for t in S.ints:
                        for a in (lin(t) or (0, {}))[1]:
                            x = a
                            while isinstance(x, tuple) and x[0] in ('cast', 'wrap'): x = x[3]
                            if isinstance(x, tuple) and x[0] == 'app' and x[1] == 'strtonum':
                                r = S.rng(a)
                                if r and r[-1][1] >= 0:
                                    lo, hi = max(0, r[0][0]), r[-1][1]
                                    if r[0][0] < 0 and not any(b <= 0 <= c for b, c in r): lo = 1
                                    num = ((max(lo, num[0][0]) if num else lo, min(hi, num[0][1]) if num else hi),)
                    for bs in combos:
                        sit = situations(s0, bs, handler)
                        if sit is None: continue
                        for o in sit:
                            def rngof(g):
                                if g == 'rem': return (rem[0][0], rem[-1][1])
                                if g == 'cache': return size_range(S, chl)
                                if g == 'digits': return size_range(S, fl('m_chunk_size_str'))
                                if g == 'num': return (max(0, num[0][0]), num[-1][1]) if num else (0, INF)
                            if any(rngof(g)[1] < lo or rngof(g)[0] > hi for g, (lo, hi) in o.guard.items()): continue
                            total += 1
                            pr = None
                            if rv != o.ret: pr = "returns %s, expected %s" % (rv, o.ret)
                            elif o.ret == 0:
                                if ge[0] != 'err' or ge[1] != errs['ERROR_' + o.err]: pr = "error %s, expected %s" % (ge[1:2], o.err)
                            elif ge[0] != 'none': pr = "sets an error although it does not fail"
                            elif length(S, used) != o.used: pr = "consumes %s bytes, expected %s" % (used, o.used)
                            elif length(S, E.read(S, fl('m_bytes_last_read'), None)) != o.used: pr = "reports the wrong number of bytes read"
                            elif not plus(E, S, fl('m_bytes_total_read'), o.used): pr = "total byte count is wrong"
                            elif not plus(E, S, fl('m_bytes_content_read'), o.used): pr = "content byte count is wrong"
                            elif o.ret == 2 and inv.get(st) != 'PARSE_' + o.state: pr = "goes to %s, expected PARSE_%s" % (inv.get(st, st), o.state)
                            elif content(E, S, fl('m_chunk_size_str'), k) != o.size_str: pr = "chunk size text is %s, expected %s" % (content(E, S, fl('m_chunk_size_str'), k), o.size_str)
                            elif content(E, S, chl, k) != o.cache: pr = "stored content is %s, expected %s" % (content(E, S, chl, k), o.cache)
                            else:
                                rd = E.read(S, fl('m_bytes_read_in_current_chunk'), None)
                                if o.read == 'zero': bad = rd != 0
                                else: bad = length(S, sub(rd, add(r0, o.read))) != 0 if s0 == 'CHUNK' or o.read == 0 else False
                                if bad: pr = "bytes counted in the chunk: %s" % (rd,)
                                ph = tuple((length(S, sub(S.mon[('ph', j)][0], BUF)), length(S, S.mon[('ph', j)][1])) for j in range(len([1 for x in S.mon if isinstance(x, tuple) and x[0] == 'ph'])))
                                if not pr and ph != o.ph: pr = "payload delivered as %s, expected %s" % (ph, o.ph)
                                if not pr and o.size == 'parsed':
                                    z = E.read(S, fl('m_size_of_current_chunk'), None)
                                    sub_ = set(subterms(z)) if isinstance(z, tuple) else set()
                                    nums = [x for x in sub_ if isinstance(x, tuple) and x[0] == 'app' and x[1] == 'strtonum']
                                    if z != 0 and (len(nums) != 1 or nums[0][3] != 16 or not any(y == ('init', fl('m_chunk_size_str')) for y in subterms(nums[0]))) and \
                                            not (len(nums) == 1 and nums[0][3] == 16 and o.size_str[0] == ''):
                                        pr = "the chunk size is not the hexadecimal value of the text read"
                                if not pr and o.foot:
                                    if E.read(S, fl('m_message_parse_state'), None) != msgst['PARSE_FOOTERS'] or E.read(S, fl('m_headers_parse_state'), None) != hst['PARSE_HEADER_START']:
                                        pr = "does not continue with the footers"
                                elif not pr and o.ret == 1:
                                    if E.read(S, fl('m_message_parse_state'), None) != ('init', fl('m_message_parse_state')): pr = "changes the message state at the end of the last chunk"
                            R.ob("%s:%s:%d" % (s0, 'handler' if handler else 'cache', k), pr is None, where(f),
                                 "in state %s on input %s: %s" % (s0, bytes(x & 255 for x in bs), pr), S.path() if pr else None)
    R.count('situations_compared', total)
    R.floor('chunk situations', total, 200)


def length(S, t):
    r = S.rng(t)
    return r[0][0] if r and r[0][0] == r[-1][1] else ('?', t)


def plus(E, S, loc, n):
    v = E.read(S, loc, None)
    while isinstance(v, tuple) and v[0] in ('cast', 'wrap'): v = v[3]
    return length(S, sub(v, ('init', loc))) == n
