"""C08: grammar of the start line and header block;  C06 part: size limits (same transfer functions)."""
from ..load import AnalysisError, strip_targs
from ..eng import Hooks, add, TAG, conc, subterms, s_list, s_card
from ..step import run, retval, error_of, content, size_range, byte, BUF
from ..report import where

P = 'pion::http::parser::'
M = 'pion::http::message::'
SPECIAL = set(map(ord, '()<>@,;:\\"/[]?={} \t'))
LIMIT = {'m_method': 1024, 'm_resource': 256 * 1024, 'm_query_string': 1024 * 1024, 'm_header_name': 1024,
         'm_header_value': 1024 * 1024, 'm_status_message': 1024}
STRINGS = list(LIMIT)
CR, LF, SP, HT = 13, 10, 32, 9


def ctl(b): return 0 <= b <= 31 or b == 127
def tok(b): return 0 <= b <= 127 and not ctl(b) and b not in SPECIAL
def digit(b): return 48 <= b <= 57


class Out(object):
    """one abstract situation of the specification"""
    __slots__ = ('state', 'str', 'ver', 'ret', 'err', 'used', 'hdr', 'guard', 'code')

    def __init__(s, state):
        s.state, s.str, s.ver, s.ret, s.err, s.used = state, {k: ('init', ()) for k in STRINGS}, {'M': None, 'm': None}, None, None, 0
        s.hdr, s.guard, s.code = (), {}, None

    def copy(s):
        o = Out(s.state)
        o.str, o.ver, o.ret, o.err, o.used, o.hdr, o.guard, o.code = dict(s.str), dict(s.ver), s.ret, s.err, s.used, s.hdr, dict(s.guard), s.code
        return o


def split_size(o, fld, lim):
    """-> [(situation, full?)] by the current size of the string against lim"""
    base, bs = o.str[fld]
    n = len(bs)
    if base == '': return [(o, n >= lim)]
    lo, hi = o.guard.get(('size', fld), (0, 1 << 63))
    out = []
    cut = lim - n                       # initial size >= cut  <=> full
    if lo < cut:
        x = o.copy(); x.guard[('size', fld)] = (lo, min(hi, cut - 1)); out.append((x, False))
    if hi >= cut:
        x = o.copy(); x.guard[('size', fld)] = (max(lo, cut), hi); out.append((x, True))
    return out


def spec(o, i, b, req):
    """successors of situation o on byte b (the i-th of the buffer)"""
    s = o.state
    o = o.copy()
    o.used = i + 1

    def go(st): o.state = st; return [o]

    def err(e):
        o.ret, o.err, o.used = 0, e, None
        return [o]

    def done(used=True):
        o.ret = 1
        o.used = i + 1 if used else i
        return [o]

    def put(f, o=None, x=None):
        o = x
        base, bs = o.str[f]
        o.str[f] = (base, bs + (i,))

    def setc(f): o.str[f] = ('', (i,))
    def clr(f): o.str[f] = ('', ())

    def bounded(f, e):
        res = []
        for x, full in split_size(o, f, LIMIT[f]):
            if full: x.ret, x.err, x.used = 0, e, None
            else: put(f, x=x)
            res.append(x)
        return res

    def version0(): o.ver['M'] = ('const', 0); o.ver['m'] = ('const', 0)
    if s == 'METHOD_START':
        if b in (SP, CR, LF): return [o]
        if not tok(b): return err('METHOD_CHAR')
        setc('m_method'); return go('METHOD')
    if s == 'METHOD':
        if b == SP: clr('m_resource'); return go('URI_STEM')
        if not tok(b): return err('METHOD_CHAR')
        return bounded('m_method', 'METHOD_SIZE')
    if s == 'URI_STEM':
        if b == SP: return go('HTTP_VERSION_H')
        if b == ord('?'): clr('m_query_string'); return go('URI_QUERY')
        if b == CR: version0(); return go('EXPECTING_NEWLINE')
        if b == LF: version0(); return go('EXPECTING_CR')
        if ctl(b): return err('URI_CHAR')
        return bounded('m_resource', 'URI_SIZE')
    if s == 'URI_QUERY':
        if b == SP: return go('HTTP_VERSION_H')
        if b == CR: version0(); return go('EXPECTING_NEWLINE')
        if b == LF: version0(); return go('EXPECTING_CR')
        if ctl(b): return err('QUERY_CHAR')
        return bounded('m_query_string', 'QUERY_SIZE')
    if s == 'HTTP_VERSION_H':
        if b in (CR, LF):
            if not req: return err('VERSION_EMPTY')
            version0(); return go('EXPECTING_NEWLINE' if b == CR else 'EXPECTING_CR')
        if b != ord('H'): return err('VERSION_CHAR')
        return go('HTTP_VERSION_T_1')
    for st, ch, nx in (('HTTP_VERSION_T_1', 'T', 'HTTP_VERSION_T_2'), ('HTTP_VERSION_T_2', 'T', 'HTTP_VERSION_P'),
                       ('HTTP_VERSION_P', 'P', 'HTTP_VERSION_SLASH'), ('HTTP_VERSION_SLASH', '/', 'HTTP_VERSION_MAJOR_START')):
        if s == st: return go(nx) if b == ord(ch) else err('VERSION_CHAR')
    if s in ('HTTP_VERSION_MAJOR_START', 'HTTP_VERSION_MINOR_START'):
        if not digit(b): return err('VERSION_CHAR')
        k = 'M' if 'MAJOR' in s else 'm'
        o.ver[k] = ('first', (i,)); return go(s.replace('_START', ''))
    if s == 'HTTP_VERSION_MAJOR':
        if b == ord('.'): return go('HTTP_VERSION_MINOR_START')
        if not digit(b): return err('VERSION_CHAR')
        o.ver['M'] = more_digits(o.ver['M'], i); return [o]
    if s == 'HTTP_VERSION_MINOR':
        if b == SP:
            if req: return [o]
            return go('STATUS_CODE_START')
        if b in (CR, LF):
            if not req: return err('STATUS_EMPTY')
            return go('EXPECTING_NEWLINE' if b == CR else 'EXPECTING_CR')
        if not digit(b): return err('VERSION_CHAR')
        o.ver['m'] = more_digits(o.ver['m'], i); return [o]
    if s == 'STATUS_CODE_START':
        if not digit(b): return err('STATUS_CHAR')
        o.code = ('first', (i,)); return go('STATUS_CODE')
    if s == 'STATUS_CODE':
        if b == SP: clr('m_status_message'); return go('STATUS_MESSAGE')
        if digit(b): o.code = more_digits(o.code, i); return [o]
        if b in (CR, LF): clr('m_status_message'); return go('EXPECTING_NEWLINE' if b == CR else 'EXPECTING_CR')
        return err('STATUS_CHAR')
    if s == 'STATUS_MESSAGE':
        if b in (CR, LF): return go('EXPECTING_NEWLINE' if b == CR else 'EXPECTING_CR')
        if ctl(b): return err('STATUS_CHAR')
        return bounded('m_status_message', 'STATUS_CHAR')

    def first_of_name():
        if not tok(b): return err('HEADER_CHAR')
        setc('m_header_name'); return go('HEADER_NAME')
    if s == 'EXPECTING_NEWLINE':
        if b == LF:
            if req:
                if o.ver['M'] is not None:
                    if o.ver['M'] == ('const', 0): return done()
                    raise AnalysisError("version value")
                res = []
                lo, hi = o.guard.get('ver', (0, 65535))
                if lo == 0:
                    x = o.copy(); x.guard['ver'] = (0, 0); x.ret = 1; res.append(x)
                if hi >= 1:
                    x = o.copy(); x.guard['ver'] = (max(lo, 1), hi); x.state = 'HEADER_START'; res.append(x)
                return res
            return go('HEADER_START')
        if b == CR: return done()
        if b in (SP, HT): return go('HEADER_WHITESPACE')
        return first_of_name()
    if s == 'EXPECTING_CR':
        if b == CR: return go('HEADER_START')
        if b == LF: return done()
        if b in (SP, HT): return go('HEADER_WHITESPACE')
        return first_of_name()
    if s == 'HEADER_WHITESPACE':
        if b == CR: return go('EXPECTING_NEWLINE')
        if b == LF: return go('EXPECTING_CR')
        if b in (SP, HT): return [o]
        return first_of_name()
    if s == 'HEADER_START':
        if b == CR: return go('EXPECTING_FINAL_NEWLINE')
        if b == LF: return go('EXPECTING_FINAL_CR')
        if b in (SP, HT): return go('HEADER_WHITESPACE')
        return first_of_name()
    if s == 'HEADER_NAME':
        if b == ord(':'): clr('m_header_value'); return go('SPACE_BEFORE_HEADER_VALUE')
        if not tok(b): return err('HEADER_CHAR')
        return bounded('m_header_name', 'HEADER_NAME_SIZE')
    if s in ('SPACE_BEFORE_HEADER_VALUE', 'HEADER_VALUE'):
        if b in (CR, LF):
            o.hdr = o.hdr + ((o.str['m_header_name'], o.str['m_header_value']),)
            return go('EXPECTING_NEWLINE' if b == CR else 'EXPECTING_CR')
        if s == 'HEADER_VALUE':
            if ctl(b) and b != HT: return err('HEADER_CHAR')
            return bounded('m_header_value', 'HEADER_VALUE_SIZE')
        if b == SP: return go('HEADER_VALUE')
        if not tok(b): return err('HEADER_CHAR')
        base, bs = o.str['m_header_value']
        o.str['m_header_value'] = (base, bs + (i,))
        return go('HEADER_VALUE')
    if s == 'EXPECTING_FINAL_NEWLINE': return done(b == LF)
    if s == 'EXPECTING_FINAL_CR': return done(b == CR)
    raise AnalysisError("header parser state %s is not in the specification" % s)


def more_digits(v, i):
    if v is None: return ('digits', (i,))
    if v[0] in ('first', 'digits'): return (v[0], v[1] + (i,))
    raise AnalysisError("version value")


REQ_ONLY = {'METHOD_START', 'METHOD', 'URI_STEM', 'URI_QUERY'}
RESP_ONLY = {'STATUS_CODE_START', 'STATUS_CODE', 'STATUS_MESSAGE'}


class HH(Hooks):
    unroll = 40
    max_states = 100000
    control = frozenset([P + 'm_headers_parse_state'])


def situations(s0, bs, req):
    cur = [Out(s0)]
    for i, b in enumerate(bs):
        nxt = []
        for o in cur:
            if o.ret is not None: nxt.append(o)
            else: nxt += spec(o, i, b, req)
        cur = nxt
    for o in cur:
        if o.ret is None: o.ret = 2
    return cur


def classes(s, req, cache={}):
    """bytes that the specification treats alike in state s (apart from which byte is stored)"""
    k = (s, req)
    if k not in cache:
        d = {}
        for b in range(-128, 128):
            sig = tuple(sorted(repr((o.state, o.str, o.ver, o.ret, o.err, o.used, o.hdr, o.guard, o.code)) for o in spec(Out(s), 0, b, req)))
            d.setdefault(sig, []).append(b)
        cache[k] = list(d.values())
    return cache[k]


def eqval(E, S, got, spec_v, init, k, w):
    """numeric value of a digits field: got term against the specification"""
    if spec_v is None: return got == ('init', init) or got == E.read(S, init, None)
    if spec_v[0] == 'const': return got == spec_v[1]
    pts = [[48 + (3 * j + 7 * t) % 10 for j in range(k)] for t in range(6)] + [[57] * k, [48] * k]
    for bs in pts:
        for iv in (0, 1, 7, 200, 6553, 65535):
            v = iv if spec_v[0] == 'digits' else 0
            for j in spec_v[1]: v = v * 10 + bs[j] - 48
            env = {byte(j): bs[j] for j in range(k)}
            env[('init', init)] = iv
            g = conc(got, env, E.prog) if isinstance(got, tuple) else got
            if g is None or (g - v) % (1 << w): return False
    return True


def compare(E, S, kind, v, combos, s0, req, k, en, this, msg, ecl):
    """all specification situations for the byte combinations of this exit, restricted to the exit's guards"""
    inv = {c: n for n, c in en.items()}
    errs = E.prog.enum(P + 'error_value_t')
    rv = retval(E, S, v)
    fl = lambda n: ('f', this, P + n)
    st = E.read(S, fl('m_headers_parse_state'), None)
    got_err = error_of(E, S, ecl)
    used = add(E.read(S, fl('m_read_ptr'), 'p'), BUF, -1)
    verM = S.rng(('init', ('f', msg, M + 'm_version_major')))
    problems = []
    nchecked = 0
    for bs in combos:
        for o in situations(s0, bs, req):
            # is this situation compatible with the path's guards?
            sk = False
            for g, (lo, hi) in o.guard.items():
                if g == 'ver':
                    if verM and (verM[-1][1] < lo or verM[0][0] > hi): sk = True
                else:
                    a, b2 = size_range(S, fl(g[1]))
                    if b2 < lo or a > hi: sk = True
            if sk: continue
            nchecked += 1
            pr = None
            if kind != 'ret': pr = "leaves by %s" % kind
            elif rv != o.ret: pr = "returns %s, expected %s" % (rv, o.ret)
            elif o.ret == 0:
                if got_err[0] != 'err' or got_err[1] != errs.get('ERROR_' + o.err):
                    pr = "error %s, expected %s" % (got_err[1:2], o.err)
            else:
                if got_err[0] != 'none': pr = "sets an error although it does not fail"
                elif o.ret == 2 and inv.get(st) != 'PARSE_' + o.state: pr = "goes to %s, expected PARSE_%s" % (inv.get(st, st), o.state)
                elif used != o.used: pr = "consumes %s bytes, expected %d" % (used, o.used)
                elif E.read(S, fl('m_bytes_last_read'), None) != o.used: pr = "reports %s bytes read, expected %d" % (E.read(S, fl('m_bytes_last_read'), None), o.used)
                else:
                    for f in STRINGS:
                        c = content(E, S, fl(f), k)
                        if c != o.str[f]:
                            pr = "%s becomes %s, expected %s" % (f, c, o.str[f]); break
                    if not pr and not eqval(E, S, E.read(S, ('f', msg, M + 'm_version_major'), None), o.ver['M'], ('f', msg, M + 'm_version_major'), k, 16): pr = "wrong major version"
                    if not pr and not eqval(E, S, E.read(S, ('f', msg, M + 'm_version_minor'), None), o.ver['m'], ('f', msg, M + 'm_version_minor'), k, 16): pr = "wrong minor version"
                    if not pr and not eqval(E, S, E.read(S, fl('m_status_code'), None), o.code, fl('m_status_code'), k, 16): pr = "wrong status code"
                    if not pr:
                        h = E.content(S, ('f', msg, M + 'm_headers'))
                        n = 0
                        while isinstance(h, tuple) and h[0] == 'app' and h[1] in ('m:insert', 'm:emplace'):
                            n += 1; h = h[2]
                        if h != ('init', ('f', msg, M + 'm_headers')): pr = "headers replaced"
                        elif n != len(o.hdr): pr = "%d header(s) added, expected %d" % (n, len(o.hdr))
                        elif n:
                            h = E.content(S, ('f', msg, M + 'm_headers'))
                            sub = set(subterms(h))
                            for f, (base, x) in zip(('m_header_name', 'm_header_value'), o.hdr[-1]):
                                want = ('init', fl(f)) if (base, x) == ('init', ()) else None
                                if want is not None and want not in sub: pr = "the header added is not the one parsed"
            if pr:
                problems.append((bs, o, pr))
                return problems, nchecked
    return problems, nchecked


def header_table(prog, R, tier, mode):
    """mode 'grammar': every outcome; mode 'limits': only situations about sizes"""
    f = prog.one(P + 'parse_headers')
    en = prog.enum(P + 'header_parse_state_t')
    this, msg, ecl = ('o', 'this'), None, None
    pn = {v['id']: v for v in f['vars']}
    for pv in f['params']:
        t = pn[pv]['type']
        if 'error_code' in t: ecl = ('o', 'arg', pn[pv]['name'] or pv)
        if 'message' in t: msg = ('o', 'arg', pn[pv]['name'] or pv)
    if msg is None or ecl is None: raise AnalysisError("parse_headers has lost its parameters")
    inits = 0
    ks = (1, 2) if tier == 'quick' or True else (1, 2, 3)
    for name in sorted(en):
        s0 = name[len('PARSE_'):]
        for req in (1, 0):
            if req and s0 in RESP_ONLY or not req and s0 in REQ_ONLY: continue
            for k in ks:
                def extra(E, S, fr):
                    TAG[('init', ('f', msg, M + 'm_version_major'))] = ('i', 16, False)
                    TAG[('init', ('f', msg, M + 'm_version_minor'))] = ('i', 16, False)
                E, fr, ex = run(prog, f, k, {'m_headers_parse_state': en[name], 'm_is_request': req, 'm_save_raw_headers': 0}, HH(), cls=P, extra=extra)
                R.engine(E)
                for kind, S, v in ex:
                    R.count('abstract_exits')
                    # byte combinations: one representative of every class the exit's byte sets touch
                    combos = [()]
                    sts = [(s0,)]
                    ok = True
                    for i in range(k):
                        B = set(s_list(S.rng(byte(i))))
                        nc = []
                        for c in combos:
                            cur = {o.state for o in situations(s0, c, req) if o.ret == 2}
                            cls = [list(range(-128, 128))]
                            for st in cur:
                                cls = [[x for x in a if x in set(y)] for a in cls for y in classes(st, req)]
                                cls = [a for a in cls if a]
                            if not cur: cls = [list(range(-128, 128))]
                            for a in cls:
                                a = [x for x in a if x in B]
                                if a: nc.append(c + (a[0],))
                        combos = nc
                    pr, n = compare(E, S, kind, v, combos, s0, req, k, en, this, msg, ecl)
                    inits += n
                    sized = [fl for fl in STRINGS if size_range(S, ('f', this, P + fl)) != (0, 1 << 63)]
                    key = "%s:%s:%s" % (s0, 'request' if req else 'response', ','.join(sized) if mode == 'limits' else k)
                    if mode == 'limits':
                        grow = [fl for fl in STRINGS if E.content(S, ('f', this, P + fl)) != ('init', ('f', this, P + fl))]
                        if not sized and not grow: continue
                    why = ''
                    if pr:
                        bs, o, w = pr[0]
                        why = "in state %s on input %s: %s" % (s0, bytes((x & 255) for x in bs), w)
                    R.ob(key, not pr, where(f), why, S.path() if pr else None)
    R.count('situations_compared', inits)
    return inits


def grammar(prog, R, tier):
    R.rule("for every header-parser state and every sequence of one and two input bytes, the abstract transfer function of the header parser (returned verdict, error code, next state, bytes consumed, method/resource/query/version/status/header text) equals the grammar written in the rule")
    R.assumptions += ["numeric fields are compared modulo their width", "std::string and hash_multimap operations behave as documented"]
    n = header_table(prog, R, tier, 'grammar')
    R.floor('header situations', n, 1000)
