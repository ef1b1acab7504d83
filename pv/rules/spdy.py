"""C22 SPDY bounds, C23 SPDY frame fields and dispatch."""
import itertools
from ..load import AnalysisError
from ..eng import Engine, Hooks, add, sub, TAG, lin, subterms, conc
from ..step import retval, error_of, BUF, byte
from ..report import where
from .httpmsg import Scen, params, param, evs, names
from .http_body import le, same

SP = 'pion::spdy::parser::'
this = ('o', 'this')
def sfl(n): return ('f', this, SP + n)

LEN = ('init', ('o', 'LEN')); TAG[LEN] = ('i', 32, False)
UL = ('init', ('o', 'UL')); TAG[UL] = ('i', 32, False)
DEC = ('init', ('o', 'DEC')); TAG[DEC] = 'p'


class SH(Scen):
    """decompress() fails or yields UL bytes at DEC; every read of either block is checked"""
    unroll = 0
    max_states = 400

    def __init__(self, **kw):
        Scen.__init__(self, **kw)
        self.out, self.total = {}, {}

    def note(self, E, S, p, ln, what):
        c, d = lin(p)
        for b, n, nm in ((BUF, LEN, 'packet'), (DEC, UL, 'decompressed block')):
            if b not in d: continue
            self.total[nm] = self.total.get(nm, 0) + 1
            lo = sub(p, b)
            if not (le(E, S, 0, lo) and le(E, S, add(lo, ln), S.mem.get(('o', 'N', nm), n))):
                self.out.setdefault((nm, "%s at %s" % (what, lo if isinstance(lo, int) else 'an unchecked offset')), S.path())

    def read(self, E, S, fr, loc, val, n):
        if loc[0] == 'd': self.note(E, S, loc[1], 1, 'a byte')

    def range_read(self, E, S, fr, n, p, ln): self.note(E, S, p, ln, 'bytes')

    def call(self, E, S, fr, n, info):
        nm = info['nm'] or ''
        if n.get('inroot') and nm == 'decompress' and len(info['args']) == 4:
            a = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' and i != 2 else x for i, x in enumerate(info['args'])]
            self.note(E, S, a[0], a[3], 'the compressed header block')
            if isinstance(a[2], tuple) and a[2][0] == 'L': a[2] = E.read(S, ('f', a[2][1], 'pion::spdy::spdy_control_frame_info::type'), ('i', 16, False))
            self.ev(S, 'decompress', *a)
            S2 = S.copy()
            return [(S, 0), (S2, DEC)]
        if n.get('inroot') and nm == 'get_uncompressed_length': return [(S, UL)]
        return Scen.call(self, E, S, fr, n, info)


def frame(prog, H, bytes_=None, lo=8, hi=(1 << 32) - 1, ulo=0, uhi=16384, empty=False):
    f = prog.one(SP + 'parse')
    E = Engine(prog, H)

    def setup(E, S, fr):
        S.setint(BUF, ((4096, 1 << 46),)); S.setint(DEC, ((1 << 47, 1 << 48),))
        S.setint(LEN, ((lo, hi),)); S.setint(UL, ((ulo, uhi),))
        for i in range(24): byte(i)
        for i, v in (bytes_ or {}).items():
            S.mem[('d', add(BUF, i))] = v - 256 if v > 127 else v
        if empty:
            S.setint(UL, ((2, 2),))
            for i in (0, 1): S.mem[('d', add(DEC, i))] = 0
        for pv in f['params']:
            l = ('v', fr.id, pv)
            t = [v for v in f['vars'] if v['id'] == pv][0]['type']
            if t.replace(' ', '') == 'constchar*': S.mem[l] = BUF
        S.mem[param(f, 'int')] = LEN
    fr, ex = E.entry(f, this=this, setup=setup)
    return f, E, fr, ex



MSG_ERR = 'pion::spdy::parser::m_error_category_ptr'


def err(prog, E, S, f):
    """None, the error's number, or a text that says what else the error code holds"""
    e = error_of(E, S, param(f, 'error_code'))
    if e[0] in ('none', 'cleared'): return None
    if e[0] == 'err' and e[1] == 0: return None
    if e[0] == 'err' and e[2] == ('init', ('d', ('init', ('g', MSG_ERR)))): return e[1]
    return 'something else'


def bounds(prog, R, tier):
    R.rule("for a packet of any length and content: every byte parse() reads lies inside the packet, every byte of the decompressed block it reads lies inside the bytes the decompressor produced, the compressed block it hands over lies inside the packet, and when it announces another frame the next position and the remaining length are exactly the rest of the packet")
    for key, lo, hi in (('frame', 8, (1 << 32) - 1), ('short-packet', 1, 7)):
        H = SH()
        f, E, fr, ex = frame(prog, H, lo=lo, hi=hi)
        R.engine(E)
        for (nm, m), path in sorted(H.out.items()):
            R.ob(key if lo == 1 else '%s:%s' % (key, nm), False, where(f), "a packet of %s bytes: reads %s outside the %s" % ('fewer than eight' if lo == 1 else 'eight or more', m, nm), path)
        if lo == 1: continue
        R.floor('reads of the packet', H.total.get('packet', 0), 8)
        R.floor('reads of the decompressed block', H.total.get('decompressed block', 0), 4)
        R.ob('frame:packet', not any(k[0] == 'packet' for k in H.out), where(f))
        R.ob('frame:decompressed block', not any(k[0] != 'packet' for k in H.out), where(f))
        nind = 0
        for kind, S, v in ex:
            if kind == 'throw':
                R.ob('frame:exception', False, where(f), "parse() throws", S.path()); continue
            rv = retval(E, S, v)
            ln = E.content(S, param(f, 'unsigned int &'))
            if rv == 2:
                nind += 1
                nxt = E.read(S, sfl('m_read_ptr'), 'p')
                R.ob('frame:next', same(E, S, add(sub(nxt, BUF), ln), LEN) and not same(E, S, ln, 0), where(f),
                     "announces another frame at offset %s with %s bytes left" % (sub(nxt, BUF), ln), S.path())
                # a frame is at least its header
                R.ob('frame:progress', le(E, S, 8, sub(nxt, BUF)), where(f), "the next frame may start before the end of this frame's header", S.path())
            e = err(prog, E, S, f)
            R.ob('frame:verdict', isinstance(rv, int) and (rv == 0) == (e is not None), where(f), "verdict %s with error %s" % (rv, e), S.path())
        R.floor('paths that announce another frame', nind, 1)
    # sizes of decompressed blocks the decompressor may produce: C24


SPD = 'pion::spdy::'


class FH(SH):
    """also records header insertions"""
    def call(self, E, S, fr, n, info):
        nm, cls = info['nm'] or '', info['cls'] or ''
        if nm == 'make_pair' or (info.get('ctor') and cls.startswith('std::pair<') and len(info['args']) == 2):
            t = ('app', 'pair') + E.content_args(S, info['args'])
            if info.get('ctor'):
                S.mem[info['obj']] = t
                return [(S, None)]
            return [(S, E.tmp(S, fr, info['nid'], t))]
        if info.get('ctor') and cls.startswith('std::pair<') and len(info['args']) == 1:
            c = E.content_args(S, info['args'])[0]
            if isinstance(c, tuple) and c[:2] == ('app', 'pair'):
                S.mem[info['obj']] = c
                return [(S, None)]
        o = info['obj']
        if o is not None and o[0] == 'f' and o[2].endswith('::http_headers') and not info.get('ctor') and nm in ('insert', 'emplace'):
            c = E.content_args(S, info['args'])
            if len(c) == 1 and isinstance(c[0], tuple) and c[0][:2] == ('app', 'pair'): c = c[0][2:]
            self.ev(S, 'header', *c)
            return [(S, 0)]
        return SH.call(self, E, S, fr, n, info)


CORNERS = (0, 1, 2, 0x7f, 0x80, 0xaa, 0x55, 0xff)


def samples(idx):
    """assignments of the bytes in idx that separate any two big-endian readings of them"""
    idx = list(idx)
    for i in idx:
        for v in CORNERS:
            for base in (0, 0xff, 0x01):
                yield {j: v if j == i else base for j in idx}
    yield {j: 0x12 + 0x22 * k & 0xff for k, j in enumerate(idx)}


def both(head):
    for grp in ((5, 6, 7), (8, 9, 10, 11)) + (((1, 2, 3),) if head[0] == 0 else ()):
        for rest in (0, 0xff, 7, 8, 10):
            for a in samples(grp): yield {**{i: 0 for i in range(16) if i not in head}, 7: rest, 5: 0, **a}


def env_of(a): return {byte(i): (v - 256 if v > 127 else v) for i, v in a.items()}


def consistent(S, env, prog):
    for k, r in S.ints.items():
        v = conc(k, env, prog)
        if v is not None and not any(a <= v <= b for a, b in r): return False
    return True


def be(a, *idx):
    r = 0
    for i in idx: r = r << 8 | (a[i] & 255)
    return r


def fields(prog, R, tier):
    R.rule("for every kind of frame (control bit, version, type, flags), every length, stream id and packet length: the error, verdict, message type, stream id, data offset and size, FIN mark, remaining length, and the block handed to the decompressor are those of the frame table; header pairs are inserted in order with exactly their bytes")
    errs = prog.enum(SP + 'error_value_t')
    kinds = []
    types = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 256, 258, 0x8001)
    flags = (0, 1, 2, 3, 0x80, 0xff) if tier == 'thorough' else (0, 1, 2, 0xff)
    for t in types:
        for fl in flags if t in (0, 1, 3) else (0, 1): kinds.append(({0: 0x80, 1: 2, 2: t >> 8, 3: t & 255, 4: fl}, 'control frame of type %d, flags %#x' % (t, fl)))
    for v in (0, 1, 3, 4, 127, 255): kinds.append(({0: 0x80, 1: v, 2: 0, 3: 6, 4: 0}, 'control frame of version %d' % v))
    for fl in flags: kinds.append(({0: 0, 4: fl}, 'data frame with flags %#x' % fl))
    for b in (1, 0x7f, 0x81, 0xff): kinds.append(({0: b}, 'first byte %#x' % b))
    n = 0
    for head, what in kinds:
        H = FH()
        f, E, fr, ex = frame(prog, H, bytes_=head, empty=True)
        R.engine(E)
        info, key = param(f, 'http_protocol_info'), what.split(',')[0].split(' with')[0].split(' of v')[0]
        if key.startswith('first'): key = 'first byte'
        seen = set()
        for kind, S, v in ex:
            if kind == 'throw':
                R.ob(key, False, where(f), "%s: parse() throws" % what, S.path()); continue
            rv, e = retval(E, S, v), err(prog, E, S, f)
            bad = lambda m: R.ob(key, False, where(f), "%s: %s" % (what, m), S.path())
            R.ob(key, True, where(f))
            n += 1
            g = lambda nm: E.read(S, ('f', info, SPD + '_http_protocol_info_t::' + nm), ('i', 32, False))
            init = lambda nm: ('init', ('f', info, SPD + '_http_protocol_info_t::' + nm))
            ln = E.content(S, param(f, 'unsigned int &'))
            if head[0] not in (0, 0x80):
                if rv != 0 or e != errs['ERROR_INVALID_SPDY_FRAME']: bad("verdict %s, error %s" % (rv, e))
                if evs(S) or ln != LEN: bad("something is consumed although this is not SPDY")
                continue
            control = head[0] == 0x80
            typ = be(head, 2, 3) if control else 0
            if control and typ >= 11:
                if rv != 0 or e != errs['ERROR_INVALID_SPDY_FRAME']: bad("verdict %s, error %s" % (rv, e))
                if evs(S): bad("an invalid frame is processed")
                continue
            if control and head[1] > 3:
                if rv != 0 or e != errs['ERROR_INVALID_SPDY_VERSION']: bad("verdict %s, error %s" % (rv, e))
                if evs(S): bad("a frame of an unknown version is processed")
                continue
            hdr = typ in (1, 2, 8) and control
            fixed = 10 if typ == 1 else 6
            ht = g('http_type')
            want = {0: 3, 1: 1, 2: 2, 5: None, 8: None}.get(typ, 4) if control else 3
            if (ht != init('http_type')) if want is None else ht != want: bad("message type %s" % (ht,))
            if not (same(E, S, g('data_offset'), add(init('data_offset'), 8)) or g('data_offset') == ('cast', 32, False, add(init('data_offset'), 8))):
                if not offset8(g('data_offset'), init('data_offset'), prog): bad("the data offset does not advance by the frame header: %s" % (g("data_offset"),))
            lc = g('last_chunk')
            if not control and head[4] & 1:
                if lc != 1: bad("FIN does not mark the last chunk")
            elif lc != init('last_chunk'): bad("the last chunk is marked without FIN")
            sid, size = g('stream_id'), g('data_size')
            decs = [x for x in evs(S) if x[0] == 'decompress']
            # concrete readings of the symbolic fields
            k = 0
            for a in both(head):
                a = {**head, **a}
                env = env_of(a)
                if not consistent(S, env, prog): continue
                k += 1
                fl24 = be(a, 5, 6, 7)
                if conc(size, env, prog) != fl24: bad("length bytes %s give data size %s" % ([hex(a[i]) for i in (5, 6, 7)], conc(size, env, prog)))
                if not control:
                    if conc(sid, env, prog) != be(a, 0, 1, 2, 3) & 0x7fffffff: bad("stream id bytes are read as %s" % conc(sid, env, prog))
                elif hdr and decs:
                    if conc(sid, env, prog) != be(a, 8, 9, 10, 11) & 0x7fffffff: bad("stream id bytes %s are read as %s" % ([hex(a[i]) for i in (8, 9, 10, 11)], conc(sid, env, prog)))
                elif not hdr and sid != init('stream_id'): bad("the stream id changes")
                for d in decs:
                    if d[1] != add(BUF, 8 + fixed): bad("the header block starts at offset %s" % (sub(d[1], BUF),))
                    if conc(d[2], env, prog) != be(a, 8, 9, 10, 11) & 0x7fffffff: bad("the decompressor is given another stream id")
                    if conc(d[4], env, prog) != fl24 - fixed: bad("the header block has %s bytes for a frame of %d" % (conc(d[4], env, prog), fl24))
                    if d[3] != typ: bad("the decompressor is given frame type %s" % (d[3],))
            if len(decs) > 1: bad("the header block is decompressed %d times" % len(decs))
            if decs and not hdr: bad("decompresses a frame without a header block")
            rest = sub(sub(LEN, 8), size)
            more, exact, less = le(E, S, 1, rest), same(E, S, rest, 0), le(E, S, rest, -1)
            if typ in (1, 2, 8) and control and not decs and e not in (errs['ERROR_MISSING_HEADER_DATA'], errs['ERROR_INVALID_SPDY_FRAME']): bad("the header block is not read (error %s)" % e)
            if not decs and hdr:
                if e == errs['ERROR_MISSING_HEADER_DATA'] and not less: bad("a complete header frame is taken for incomplete")
                if e == errs['ERROR_INVALID_SPDY_FRAME'] and not le(E, S, size, fixed - 1): bad("a header frame of sufficient length is refused")
            if decs and not (le(E, S, 0, rest)): bad("an incomplete header block is decompressed")
            ok_err = {None}
            if hdr: ok_err |= {errs['ERROR_MISSING_HEADER_DATA'], errs['ERROR_INVALID_SPDY_FRAME'], errs['ERROR_DECOMPRESSION']}
            if control and typ == 7:
                ok_err |= {errs['ERROR_PROTOCOL_ERROR'], errs['ERROR_INTERNAL_SPDY_ERROR']}
                st = [a for a in ((0, 0, 0, 1), (0, 0, 0, 11), (0, 0, 0, 0), (0, 0, 0, 2), (1, 0, 0, 1), (0, 1, 0, 11))]
                for q in st:
                    a = {**{i: 0 for i in range(16)}, **head}; a[7] = 8; a.update(zip((12, 13, 14, 15), q))
                    env = env_of(a); env[LEN] = 16
                    if not consistent(S, env, prog): continue
                    w = {(0, 0, 0, 1): errs['ERROR_PROTOCOL_ERROR'], (0, 0, 0, 11): errs['ERROR_INTERNAL_SPDY_ERROR']}.get(q)
                    if e != w: bad("GOAWAY status %s gives error %s" % (q, e))
            if e not in ok_err: bad("error %s" % e)
            if e is not None:
                if rv != 0: bad("verdict %s with an error" % rv)
                continue
            if not (more or exact or less or le(E, S, rest, 0)): bad("the verdict does not depend on what is left of the packet"); continue
            if more:
                if rv != 2: bad("another frame follows but the verdict is %s" % rv)
                elif not same(E, S, ln, rest): bad("the remaining length is wrong")
            else:
                if rv != 1: bad("no other frame follows but the verdict is %s" % rv)
                elif not same(E, S, ln, sub(LEN, 8)): bad("the remaining length is wrong")
            seen.add(rv)
        if head[0] in (0, 0x80) and (head[0] == 0 or be(head, 2, 3) < 11 and head[1] <= 3): R.ob(key, seen == {1, 2}, where(f), "%s: reachable verdicts are %s" % (what, sorted(seen)))
    R.count('frame_paths', n)
    pairs(prog, R, tier)
    statics(prog, R)


def offset8(t, base, prog):
    return all(conc(t, {base: v}, prog) == v + 8 & 0xffffffff for v in (0, 1, 8, 1000, 0x7fffffff, 0xfffffff0, 0xffffffff))


def pairs(prog, R, tier):
    """decompressed blocks of up to two pairs"""
    errs = prog.enum(SP + 'error_value_t')
    lens = [0, 1, 2, 3]
    shapes = [()] + [((a, b),) for a in lens for b in lens] + [((1, 2), (a, b)) for a in (0, 1, 2) for b in (0, 1)] + [((0, 0), (1, 1), (1, 0))]
    if tier == 'thorough': shapes += [((a, b), (c, d)) for a in (0, 1, 300) for b in (0, 2) for c in (0, 2) for d in (0, 1, 256)] + [((256, 257),)]
    for shape in shapes:
        pos, at, texts = 2, {0: len(shape) >> 8, 1: len(shape) & 255}, []
        for a, b in shape:
            at[pos], at[pos + 1] = a >> 8, a & 255
            nr = (pos + 2, a); pos += 2 + a
            at[pos], at[pos + 1] = b >> 8, b & 255
            texts.append((nr, (pos + 2, b))); pos += 2 + b
        for total in sorted({pos, pos + 5} | set(range(0, pos) if pos < 40 else (0, 1, 2, 3, pos - 1))):
            H = FH(); H.unroll = 2000
            f = prog.one(SP + 'parse')
            E = Engine(prog, H)

            def setup(E, S, fr):
                S.setint(BUF, ((4096, 1 << 46),)); S.setint(DEC, ((1 << 47, 1 << 48),))
                S.setint(UL, ((total, total),))
                for i, v in {0: 0x80, 1: 2, 2: 0, 3: 1, 4: 0, 5: 0, 6: 0, 7: 40, 8: 0, 9: 0, 10: 0, 11: 1}.items(): S.mem[('d', add(BUF, i))] = v - 256 if v > 127 else v
                for i, v in at.items(): S.mem[('d', add(DEC, i))] = v - 256 if v > 127 else v
                for i in range(total + 8):
                    if i not in at: TAG[('init', ('d', add(DEC, i)))] = ('i', 8, True)
                for pv in f['params']:
                    t = [v for v in f['vars'] if v['id'] == pv][0]['type']
                    if t.replace(' ', '') == 'constchar*': S.mem[('v', fr.id, pv)] = BUF
                S.mem[param(f, 'unsigned int &')] = 48
                S.setint(LEN, ((48, 48),))
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            key = 'header pairs:%d' % len(shape)
            what = "%d header pairs with lengths %s in a block of %d bytes" % (len(shape), list(shape), total)
            for m, path in sorted(H.out.items()):
                R.ob('header block bounds', False, where(f), "%s: reads %s outside the %s" % (what, m[1], m[0]), path)
            done = 0
            for kind, S, v in ex:
                ds = [e for e in evs(S) if e[0] == 'decompress']
                e = err(prog, E, S, f)
                if e == errs['ERROR_DECOMPRESSION']: continue
                done += 1
                ins = [x[1:] for x in evs(S) if x[0] == 'header']
                full = total >= pos
                want = [tuple(rngs(DEC, lo, n) for lo, n in t) for t in texts]
                got = [tuple(text_at(x, DEC) for x in p) for p in ins]
                nfit = 0
                for (nr, vr) in texts:
                    if vr[0] + vr[1] <= total: nfit += 1
                    else: break
                if total < 2: nfit = 0
                R.ob(key, got == want[:nfit], where(f), "%s: inserts %s" % (what, [[(len(y) if y is not None else None) for y in p] for p in got]), S.path() if got != want[:nfit] else None)
                R.ob(key, (e is None) == full and (e in (None, errs['ERROR_MISSING_HEADER_DATA'])), where(f), "%s: error %s" % (what, e))
            R.ob(key, done > 0, where(f), "%s: no path reads the block" % what)
            R.count('header_blocks')


def rngs(p, lo, n): return tuple(range(lo, lo + n))


def text_at(t, p):
    """offsets relative to p of the bytes of a text; None if it is anything else"""
    out = []
    for q in (t[1:] if isinstance(t, tuple) and t[0] == 'cat' else (t,)):
        if q == ('str', ''): continue
        if isinstance(q, tuple) and q[0] == 'chr' and isinstance(q[1], tuple):
            x = q[1]
            while isinstance(x, tuple) and x[0] in ('cast', 'wrap'): x = x[3]
            if isinstance(x, tuple) and x[0] == 'init' and x[1][0] == 'd':
                c = sub(x[1][1], p)
                if isinstance(c, int): out.append(c); continue
            return None
        if isinstance(q, tuple) and q[0] == 'rng':
            a, b = sub(q[1], p), sub(q[2], p)
            if isinstance(a, int) and isinstance(b, int): out += range(a, b); continue
        return None
    return tuple(out)


def statics(prog, R):
    """the frame heuristics other code calls before parse()"""
    for nm in ('is_spdy_control_frame', 'get_spdy_frame_type', 'get_control_frame_stream_id'):
        for f in prog.fn(SP + nm):
            pass
    en = prog.enum(SPD + 'spdy_frame_type')
    f = prog.one(SP + 'get_spdy_frame_type')
    for b in range(256):
        v = const_call(prog, R, f, {0: b})
        w = en['spdy_control_frame'] if b == 0x80 else en['spdy_data_frame'] if b == 0 else en['spdy_invalid_frame']
        R.ob('get_spdy_frame_type', v == w, where(f), "first byte %#x is frame type %s" % (b, v))
    f = prog.one(SP + 'is_spdy_control_frame')
    for b0, b1, t in itertools.product((0, 1, 0x7f, 0x80, 0x81, 0xff), (0, 1, 2, 3, 4, 255), (0, 1, 10, 11, 12, 256, 0x8001, 0xffff)):
        v = const_call(prog, R, f, {0: b0, 1: b1, 2: t >> 8, 3: t & 255})
        ver = (b0 & 0x7f) << 8 | b1
        R.ob('is_spdy_control_frame', v == int(bool(b0 & 0x80) and 1 <= ver <= 3 and t < 11), where(f), "bytes %#x %#x, type %d: %s" % (b0, b1, t, v))
    f = prog.one(SP + 'get_control_frame_stream_id')
    for a in samples((8, 9, 10, 11)):
        v = const_call(prog, R, f, a)
        R.ob('get_control_frame_stream_id', v == be(a, 8, 9, 10, 11) & 0x7fffffff, where(f), "stream id bytes %s are read as %s" % ([hex(a[i]) for i in (8, 9, 10, 11)], v))


def const_call(prog, R, f, bytes_):
    """the value f(pointer) returns when the pointer refers to the given constant bytes (None: it is not determined by them)"""
    H = Hooks()
    E = Engine(prog, H)

    def setup(E, S, fr):
        S.setint(BUF, ((4096, 1 << 46),))
        for i, v in bytes_.items(): S.mem[('d', add(BUF, i))] = v - 256 if v > 127 else v
        for pv in f['params'][:1]: S.mem[('v', fr.id, pv)] = BUF
    fr, ex = E.entry(f, setup=setup)
    R.engine(E)
    vals = {retval(E, S, v) for kind, S, v in ex}
    return vals.pop() if len(vals) == 1 else None


# ------------------------------------------------------------------ C24
D = 'pion::spdy::decompressor::'
Z = 'z_stream_s::'
REQ, RSP = ('init', ('o', 'REQ')), ('init', ('o', 'RSP'))
TAG[REQ] = TAG[RSP] = 'p'
DICT_SHA = '0088d05d3b07b510aae796d67857c83308247ae79078d5743f412e483c23fbc6'   # the 907 bytes of SPDY version 2


def dfl(n): return ('f', this, D + n)
def zf(p, n): return ('f', ('d', p), Z + n)


def bare(t):
    while isinstance(t, tuple) and t[0] in ('cast', 'wrap'): t = t[3]
    return t


class ZH(Scen):
    """zlib replaced by the choice of its result; records every call with the state of its stream"""
    unroll = 20

    def __init__(self, script=(), **kw):
        Scen.__init__(self, **kw)
        self.script = script

    def ptr(self, E, S, p):
        """the number under which a pointer is known"""
        if isinstance(p, tuple) and p[0] == 'L': p = E.content(S, p[1])
        return p

    def call(self, E, S, fr, n, info):
        nm = info['nm'] or ''
        a = [self.ptr(E, S, x) for x in info['args']]
        if not n.get('inroot') and nm in ('inflate', 'inflateSetDictionary', 'inflateEnd', 'inflateInit2_', 'inflateInit_', 'inflateReset', 'free', 'malloc', 'adler32'):
            if nm == 'malloc':
                k = sum(1 for e in evs(S) if e[0] == 'malloc')
                p = ('init', ('o', 'MALLOC', k)); TAG[p] = 'p'
                S.setint(p, ((4096, 1 << 46),))
                self.ev(S, 'malloc', p, a[0])
                return [(S, p)]
            st = None
            if nm.startswith('inflate') and nm != 'inflateSetDictionary':
                st = tuple(E.read(S, zf(a[0], x), t) for x, t in (('next_in', 'p'), ('avail_in', ('i', 32, False)), ('next_out', 'p'), ('avail_out', ('i', 32, False)), ('zalloc', 'p'), ('zfree', 'p'), ('opaque', 'p')))
            self.ev(S, nm, *a, st)
            if nm == 'adler32': return [(S, ('app', 'adler32') + tuple(a))] if TAG.setdefault(('app', 'adler32') + tuple(a), ('i', 64, False)) else None
            if nm == 'inflate':
                k = sum(1 for e in evs(S) if e[0] == 'inflate')
                rc, left = self.script[k - 1] if k <= len(self.script) else (-2, 0)
                rest = ('init', ('o', 'REST', k)); TAG[rest] = ('i', 32, False)
                S.setint(rest, ((0, 16384),))
                S.mem[zf(a[0], 'avail_out')] = rest
                S.mem[zf(a[0], 'avail_in')] = left
                ad = ('init', ('o', 'ADLER')); TAG[ad] = ('i', 64, False)
                S.mem[zf(a[0], 'adler')] = ad
                return [(S, rc)]
            if nm == 'inflateSetDictionary': return [(S, self.setdict)]
            if nm.startswith('inflateInit'): return [(S, self.init)]
            return [(S, 0)]
        return Scen.call(self, E, S, fr, n, info)

    setdict = init = 0


def zlib(prog, R, tier):
    R.rule("the decompressor initialises two separate inflate streams completely before use, ends and frees each exactly once, gives every header block to the stream of its direction, never lets zlib write beyond its buffer, installs the SPDY dictionary exactly when zlib asks for the one it has, and reports success exactly when zlib consumed the whole block without error, with the number of bytes produced")
    import hashlib
    g = prog.globals.get(D + 'SPDY_ZLIB_DICTIONARY')
    dicts = [(k, v) for k, v in prog.globals.items() if v.get('arr') and len(v['arr']) == 907 and 'spdy' in k]
    if not dicts: dicts = [(k, v) for k, v in prog.globals.items() if k.startswith('pion::spdy::') and 'char' in v['type'] and v.get('arr') and len(v['arr']) > 300]
    if len(dicts) != 1: raise AnalysisError("the SPDY dictionary was not found")
    dname, dv = dicts[0]
    dl = len(dv['arr'])
    sha = hashlib.sha256(bytes(x & 255 for x in dv['arr'])).hexdigest()
    rec = prog.record('pion::spdy::decompressor')
    buf = [x for x in rec['fields'] if '[' in x['type']]
    if len(buf) != 1: raise AnalysisError("the decompressor's output buffer was not found")
    bname = buf[0]['name']
    import re
    cap = int(re.search(r'\[(\d+)\]', buf[0]['type']).group(1))
    en = 'src/spdy_decompressor.cpp'
    R.ob('dictionary', sha == DICT_SHA, '%s:%s' % (dv['file'], dv['line']), "the dictionary is not the one of SPDY version 2 (%d bytes, sha256 %s)" % (dl, sha))
    cid = ('init', ('o', 'DID')); TAG[cid] = ('i', 32, False)

    # constructor
    for init in (0, -4):
        H = ZH(); H.init = init
        f = [x for x in prog.fn(D + 'decompressor') if not x['params']][0]
        E = Engine(prog, H)
        fr, ex = E.entry(f)
        R.engine(E)
        for kind, S, v in ex:
            ms = [e for e in evs(S) if e[0] == 'malloc']
            ins = [e for e in evs(S) if e[0].startswith('inflateInit')]
            q, r = E.read(S, dfl('m_request_zstream'), 'p'), E.read(S, dfl('m_response_zstream'), 'p')
            bad = lambda m: R.ob('construction', False, where(f), m, S.path())
            R.ob('construction', True, where(f))
            if len(ms) != 2 or {q, r} != {e[1] for e in ms}: bad("two separate streams are not allocated"); continue
            sz = prog.records.get('z_stream_s', {}).get('size')
            if any(e[2] != ms[0][2] for e in ms) or sz and any(e[2] != sz for e in ms): bad("a stream is allocated with the wrong size")
            if not init and {e[1] for e in ins} != {q, r} or len({e[1] for e in ins}) != len(ins): bad("not both streams are initialised exactly once")
            for e in ins:
                st = e[-1]
                if st[0] != 0 or st[1] != 0 or st[4] != 0 or st[5] != 0 or st[6] != 0: bad("a stream is initialised with undefined input or allocators")
                if e[2] != 15: bad("window bits %s" % (e[2],))
            if not init:
                idt = E.read(S, dfl('m_dictionary_id'), ('i', 32, False))
                ok = False
                for a in [x for x in subterms(idt) if isinstance(x, tuple) and x[:2] == ('app', 'adler32')]:
                    if bare(a[2]) == ('app', 'adler32', 0, 0, 0) and dname in repr(a[3]) and a[4] == dl: ok = True
                if not ok: bad("the dictionary id is not the checksum of the whole dictionary: %s" % (idt,))
    # destructor
    f = prog.one(D + '~decompressor')
    E = Engine(prog, ZH())

    def su(E, S, fr):
        for p in (REQ, RSP): S.setint(p, ((4096, 1 << 46),))
        S.setint(REQ, ((4096, 1 << 45),)); S.setint(RSP, (((1 << 45) + 1, 1 << 46),))
        S.mem[dfl('m_request_zstream')], S.mem[dfl('m_response_zstream')] = REQ, RSP
        S.mem[dfl('m_dictionary_id')] = cid
    fr, ex = E.entry(f, setup=su)
    R.engine(E)
    for kind, S, v in ex:
        for p, nm in ((REQ, 'request'), (RSP, 'response')):
            L = [e[0] for e in evs(S) if len(e) > 1 and e[1] == p]
            R.ob('destruction', L == ['inflateEnd', 'free'], where(f), "the %s stream sees %s" % (nm, L), S.path())
    # decompress()
    f = prog.one(D + 'decompress')
    ps = params(f)
    lloc = [('v', i) for i in f['params']]
    OK, END, DICT, BUFE, DATA = 0, 1, 2, -5, -3
    scripts = [((rc, left),) for rc in (OK, END, BUFE, DATA, -2, -4) for left in (0, 1, 77)]
    scripts += [((DICT, 9), (rc, left)) for rc in (OK, END, BUFE, DATA, DICT) for left in (0, 1)]
    sid = ('init', ('o', 'SID'))
    CL = ('init', ('o', 'CLEN')); TAG[CL] = ('i', 32, False)
    old = ('init', ('o', 'OLDLEN')); TAG[old] = ('i', 32, False)
    for odd, typ in ((0, 1), (0, 2), (0, 8), (1, 1), (1, 2), (1, 8)):
        for script in scripts:
            for match, setd in ((1, 0), (0, 0), (1, -3)) if script[0][0] == DICT else ((1, 0),):
                H = ZH(script); H.setdict = setd
                E = Engine(prog, H)

                def setup(E, S, fr):
                    su(E, S, fr)
                    S.setint(BUF, ((4096, 1 << 46),))
                    S.mem[dfl('m_uncompressed_length')] = old
                    ad = ('init', ('o', 'ADLER')); TAG[ad] = ('i', 64, False)
                    S.mem[dfl('m_dictionary_id')] = 77
                    S.setint(ad, ((77, 77),) if match else ((78, 1 << 31),))
                    ints = []
                    for pv in f['params']:
                        v = [x for x in f['vars'] if x['id'] == pv][0]
                        t = v['type'].replace(' ', '')
                        if t == 'constchar*': S.mem[('v', fr.id, pv)] = BUF
                        elif 'frame_info' in t: S.mem[('f', ('o', 'arg', v['name'] or pv), SPD + 'spdy_control_frame_info::type')] = typ
                        else: ints.append(pv)
                    S.mem[('v', fr.id, ints[0])] = 6 + odd
                    S.mem[('v', fr.id, ints[1])] = CL
                    S.setint(CL, ((0, (1 << 24) - 1),))
                fr, ex = E.entry(f, setup=setup)
                R.engine(E)
                key = 'decompress:%s' % {1: 'SYN_STREAM', 2: 'SYN_REPLY', 8: 'HEADERS'}[typ]
                want = REQ if odd and typ == 1 else RSP
                what = "%s stream, frame type %d, zlib results %s" % ('odd' if odd else 'even', typ, script)
                R.ob(key, bool(ex), where(f), what + ": no path")
                for kind, S, v in ex:
                    bad = lambda m: R.ob(key, False, where(f), "%s: %s" % (what, m), S.path())
                    R.ob(key, kind != 'throw', where(f), "throws")
                    L = evs(S)
                    inf = [e for e in L if e[0] == 'inflate']
                    if any(e[0] in ('free', 'inflateEnd', 'inflateReset') for e in L): bad("a stream is ended or reset")
                    if any(e[1] != want for e in L): bad("uses the stream of the other direction")
                    base = ('f', this, D + bname)
                    b0 = None
                    for i, e in enumerate(inf):
                        st = e[-1]
                        if i == 0:
                            b0 = st[2]
                            if st[0] != BUF or st[1] != CL: bad("zlib is not given exactly the compressed block")
                            if not isinstance(st[3], int) or not 0 < st[3] <= cap: bad("zlib may write %s bytes into a buffer of %d" % (st[3], cap))
                            if base not in set(subterms(st[2])) and bname not in repr(st[2]) or sub(st[2], E.addr(base)) != 0 and 'elem' in repr(st[2]) and False: bad("the output does not go to the buffer")
                        if e[2] != 2: bad("flush mode %s" % (e[2],))
                    if not inf: bad("nothing is decompressed"); continue
                    sd = [e for e in L if e[0] == 'inflateSetDictionary']
                    wantd = script[0][0] == DICT and match
                    if bool(sd) != bool(wantd) or len(sd) > 1: bad("the dictionary is set %d times" % len(sd))
                    for e in sd:
                        if dname not in repr(e[2]) or e[3] != dl: bad("not the whole SPDY dictionary is used")
                    nw = 2 if wantd and setd == 0 else 1
                    if len(inf) != nw: bad("inflate is called %d times" % len(inf))
                    last = script[nw - 1] if nw <= len(script) else None
                    good = last == (OK, 0) and not (wantd and setd)
                    rv = retval(E, S, v)
                    ulen = E.read(S, dfl('m_uncompressed_length'), ('i', 32, False))
                    if not good:
                        if rv != 0: bad("a failure is reported as success")
                        continue
                    if rv == 0 or rv is None: bad("success is reported as failure"); continue
                    if rv != b0: bad("returns another position than the start of the output")
                    rest = ('init', ('o', 'REST', nw))
                    a0 = inf[0][-1][3]
                    if not isinstance(a0, int) or not same(E, S, ulen, sub(a0, rest)): bad("the reported length is %s, not the number of bytes produced" % (ulen,))
    R.count('zlib_scripts', len(scripts))
    # the object owns its streams: a copy would end them twice
