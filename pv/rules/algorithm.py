"""C18 bounds, C19 base64, C20 byte order, C21 url and xml encoding."""
import itertools
from ..load import AnalysisError
from ..eng import Engine, Hooks, add, sub, mul, TAG, lin, subterms, conc, CTYPE, s_from
from ..step import retval, BUF, byte
from ..report import where
from .httpmsg import Scen, params, param
from .http_body import le, same

A = 'pion::algorithm::'
N = ('init', ('o', 'N')); TAG[N] = ('i', 64, False)
ITER = '__gnu_cxx::__normal_iterator'


class InStr(Scen):
    """the input text is k bytes at BUF; checks every read of it, and every access to local and static arrays"""
    unroll = 0
    max_states = 200

    def __init__(self, prog, src, size, fns=()):
        Scen.__init__(self)
        self.prog, self.src, self.size = prog, src, size
        self.out, self.total, self.lens = {}, 0, {}
        if isinstance(size, int): self.unroll, self.max_states = 40, 1 << 20

    def note(self, E, S, fr, loc, what):
        if loc[0] != 'd': return
        c, d = lin(loc[1])
        if BUF in d:
            self.total += 1
            o = sub(loc[1], BUF)
            if not (le(E, S, 0, o) and self.upto(E, S, o)):
                self.out.setdefault('%s the input at %s' % (what, o if isinstance(o, int) else 'an unchecked offset'), S.path())
            return
        for b in d:
            if isinstance(b, tuple) and b[0] == 'addr' and b[1][0] == 'el':
                n = self.extent(fr, b[1][1])
                if n is None: continue
                self.total += 1
                o = sub(loc[1], b)
                r = ((o, o),) if isinstance(o, int) else S.rng(o)
                if not r or r[0][0] < 0 or r[-1][1] >= n:
                    self.out.setdefault('%s an array of %d elements at index %s' % (what, n, '%d..%d' % (r[0][0], r[-1][1]) if r and abs(r[0][0]) < 1 << 40 else 'unchecked'), S.path())

    def upto(self, E, S, o):
        if le(E, S, o, self.size): return True
        # the byte before is not the terminator, so this one is not beyond it
        q = sub(o, 1)
        v = E.read(S, ('d', add(BUF, q)), ('i', 8, True))
        r = S.rng(v) if not isinstance(v, int) else ((v, v),)
        return bool(r) and not any(a <= 0 <= b for a, b in r) and le(E, S, 0, q) and self.upto(E, S, q)

    def extent(self, fr, l):
        import re
        t = None
        if l[0] == 'g':
            g = self.prog.globals.get(l[1])
            if g and 'arr' in g: return len(g['arr'])
            t = g['type'] if g else None
        elif l[0] == 'v':
            f = fr
            while f is not None and f.id != l[1]: f = f.parent
            if f is not None:
                for v in f.f['vars']:
                    if v['id'] == l[2]: t = v['type']
        m = re.search(r'\[(\d+)\]$', t or '')
        return int(m.group(1)) if m else None

    def read(self, E, S, fr, loc, val, n): self.note(E, S, fr, loc, 'reads')
    def write(self, E, S, fr, loc, val, n): self.note(E, S, fr, loc, 'writes')

    def branch(self, E, S, fr, blk, cond, truth):
        if isinstance(cond, tuple) and N in set(subterms(cond)):
            c = cond
            while isinstance(c, tuple) and c[0] == 'not': c = c[1]
            ok = False
            if c[0] == 'cmp':
                k, d = lin(sub(c[2], c[3]))
                others = [x for x in d if x != N]
                ok = abs(k) <= 4 and len(others) >= 1 or not others and abs(k) <= 4
                if not ok and all(isinstance(x, tuple) and x[0] in ('cast', 'wrap', 'phi', 'init') for x in d) and abs(k) <= 4: ok = True
            self.lens.setdefault(repr(c)[:160], ok)

    def sv(self, E, S, x): return E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x

    def call(self, E, S, fr, n, info):
        nm, obj, cls = info['nm'] or '', info['obj'], info['cls'] or ''
        if obj == self.src and not info.get('ctor'):
            a = [self.sv(E, S, x) for x in info['args']]
            if nm in ('operator[]', 'at'): return [(S, ('L', ('d', add(BUF, a[0]))))]
            if nm in ('size', 'length'): return [(S, self.size)]
            if nm == 'empty': return [(S, E.mkcmp(S, '==', self.size, 0))]
            if nm in ('c_str', 'data'): return [(S, BUF)]
            if nm in ('begin', 'cbegin'): return [(S, E.tmp(S, fr, info['nid'], BUF))]
            if nm in ('end', 'cend'): return [(S, E.tmp(S, fr, info['nid'], add(BUF, self.size)))]
        if cls.startswith(ITER) or (n.get('sfn') or '').startswith('__gnu_cxx::operator'):
            r = iterator(self, E, S, fr, n, info)
            if r is not None: return r
        return Scen.call(self, E, S, fr, n, info)


def iterator(h, E, S, fr, n, info):
    """std::string iterators as pointers"""
    nm, obj = info['nm'] or '', info['obj']
    a = [h.sv(E, S, x) for x in info['args']]
    if info.get('ctor') and len(a) == 1:
        S.mem[obj] = a[0]
        return [(S, None)]
    if obj is None:
        if len(a) != 2: return None
        x, y = a
    else:
        x, y = E.content(S, obj), a[0] if a else None
    if TAG.get(x) != 'p' and not (isinstance(x, tuple) and x[0] == 'lin'): return None
    op = nm[8:]
    if op == '*' and y is None: return [(S, ('L', ('d', x)))]
    if op in ('==', '!=', '<', '<=', '>', '>='): return [(S, E.mkcmp(S, op, x, y))]
    if op in ('+', '-') and y is not None:
        r = add(x, y) if op == '+' else sub(x, y)
        if TAG.get(y) == 'p' or isinstance(y, tuple) and BUF in lin(y)[1]: return [(S, r)]
        return [(S, E.tmp(S, fr, info['nid'], r))]
    if op in ('++', '--', '+=', '-='):
        d = 1 if op[1] in '+-' else y
        r = add(x, d) if op[0] == '+' else sub(x, d)
        E.write(S, fr, obj, r, n)
        if a and op[1] in '+-': return [(S, E.tmp(S, fr, info['nid'], x))]
        return [(S, ('L', obj))]
    if op == '=':
        E.write(S, fr, obj, y, n)
        return [(S, ('L', obj))]
    return None


def analyse(prog, name, k, cands=None):
    f = prog.one(A + name)
    ps = params(f)
    src = [l for t, l in ps if 'basic_string' in t and t.startswith('const')]
    if len(src) != 1: raise AnalysisError("%s has no text parameter any more" % name)
    H = InStr(prog, src[0], k)
    E = Engine(prog, H)

    def setup(E, S, fr):
        S.setint(BUF, ((4096, 1 << 46),))
        if k is N: S.setint(N, ((0, 1 << 31),))
        else:
            for i in range(k): S.setint(byte(i), s_from([sg(x) for x in cands[i]]))
            S.mem[('d', add(BUF, k))] = 0
    fr, ex = E.entry(f, setup=setup)
    out = [l for t, l in ps if 'basic_string' in t and not t.startswith('const')]
    return f, H, E, ex, out[0] if out else None


def consistent(S, env, prog):
    for k, r in S.ints.items():
        v = conc(k, env, prog)
        if v is not None and not any(a <= v <= b for a, b in r): return False
    for k, w in S.truth.items():
        v = conc(k, env, prog) if isinstance(k, tuple) else None
        if v is not None and bool(v) != bool(w): return False
    return True


def text(t, env, prog):
    """the bytes of a text under an assignment; None when they are not determined"""
    out = []
    for p in (t[1:] if isinstance(t, tuple) and t[0] == 'cat' else (t,)):
        if not isinstance(p, tuple): return None
        if p[0] == 'str': out += [ord(c) & 255 for c in p[1]]
        elif p[0] == 'chr':
            v = conc(p[1], env, prog)
            if v is None: return None
            out.append(v & 255)
        elif p[0] == 'rng':
            a, b = sub(p[1], BUF), sub(p[2], BUF)
            if not (isinstance(a, int) and isinstance(b, int)): return None
            for i in range(a, b):
                v = env.get(byte(i))
                if v is None: return None
                out.append(v & 255)
        else: return None
    return bytes(out)


def sg(v): return v - 256 if v > 127 else v


def compare(prog, R, name, k, cands, ref, key):
    """every path of name() on k bytes: output and result equal ref for every assignment of cands (a list of byte values per position) on it"""
    f, H, E, ex, out = analyse(prog, name, k, cands)
    R.engine(E)
    for m, path in sorted(H.out.items()): R.ob(key, False, where(f), "on %d bytes: %s" % (k, m), path)
    n = 0
    covered = set()
    for kind, S, v in ex:
        if kind == 'throw':
            R.ob(key, False, where(f), "throws on %d bytes" % k, S.path()); continue
        rv = retval(E, S, v)
        t = E.content(S, out) if out is not None else rv
        lists = []
        for i in range(k):
            r = S.rng(byte(i))
            lists.append([x for x in cands[i] if not r or any(a <= sg(x) <= b for a, b in r)])
        for a in itertools.product(*lists):
            env = {byte(i): sg(x) for i, x in enumerate(a)}
            if not consistent(S, env, prog): continue
            n += 1
            covered.add(a)
            want = ref(bytes(a))
            got = text(t, env, prog)
            if out is not None: got = (conc(rv, env, prog) if not isinstance(rv, int) else rv, got if rv else None)
            if got != want:
                R.ob(key, False, where(f), "%s(%r) gives %s instead of %s" % (name, bytes(a), got if got is not None else t, want), S.path())
                return n
    R.ob(key, True, where(f))
    tot = 1
    for c in cands[:k]: tot *= len(c)
    R.ob(key, len(covered) == tot, where(f), "%s: only %d of %d inputs of %d bytes are on a path" % (name, len(covered), tot, k))
    R.count('texts_compared', n)
    return n


ALL = list(range(256))


# ------------------------------------------------------------------ C18
def bounds(prog, R, tier):
    R.rule("for texts of any length: every byte base64, url and xml coding reads lies inside the input (or is its terminator), every table index and local array access is inside its array, and the length of the text is only ever used to find its end; byte readers and writers touch exactly their own bytes")
    for name in ('base64_decode', 'base64_encode', 'url_decode', 'url_encode', 'xml_encode'):
        f, H, E, ex, out = analyse(prog, name, N)
        R.engine(E)
        for m, path in sorted(H.out.items()): R.ob(name, False, where(f), m, path)
        R.ob(name, True, where(f))
        R.floor(name + ' accesses', H.total, 2)
        for c, ok in H.lens.items(): R.ob(name + ':length', ok, where(f), "a decision depends on the length of the text itself: %s" % c)
        R.ob(name + ':throws', all(k != 'throw' for k, S, v in ex), where(f), "throws")
    order(prog, R, tier, bounds_only=True)


# ------------------------------------------------------------------ C19
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64enc(b):
    import base64
    return (1, base64.b64encode(b))


def b64dec(b):
    """groups of four; '=' in the third or fourth place ends the text; a missing third or fourth place is tolerated at the end"""
    inv = {c: i for i, c in enumerate(B64)}
    out, i = [], 0
    while i < len(b):
        g = b[i:i + 4]
        if g[0] not in inv: return (0, None)
        if len(g) < 2 or g[1] not in inv: return (0, None)
        out.append((inv[g[0]] << 2 | inv[g[1]] >> 4) & 255)
        if len(g) > 2:
            if g[2:3] == b'=': return (1, bytes(out))
            if g[2] not in inv: return (0, None)
            out.append((inv[g[1]] << 4 | inv[g[2]] >> 2) & 255)
        if len(g) > 3:
            if g[3:4] == b'=': return (1, bytes(out))
            if g[3] not in inv: return (0, None)
            out.append((inv[g[2]] << 6 | inv[g[3]]) & 255)
        i += 4
    return (1, bytes(out))


def base64(prog, R, tier):
    R.rule("base64_encode() gives exactly the RFC 4648 text of its input, base64_decode() exactly the bytes of a valid text and false for any character outside the alphabet; decoding undoes encoding")
    few = [0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xaa, 0x55, 0xfe, 0xff]
    d = list(b'AQgwz05+/') + [ord('='), ord('@'), 0, 0x7f, 0x80, 0xff]
    mid = [0x5a, 0xff]
    for k in range(0, 7 if tier != 'thorough' else 10):
        compare(prog, R, 'base64_encode', k, [few if k <= 3 else mid] * k, b64enc, 'encode:%d' % min(k % 3, k))
        compare(prog, R, 'base64_decode', k, [d] * k if k <= 3 else [list(b'Ag/')+[0x80]] * 4 + [list(b'w=') + [0xff]] * (k - 4) if k <= 6 else [list(b'/z')] * k, b64dec, 'decode:%d' % (k % 4))
        for i in range(k if k <= 4 else 0):
            for base in (0x00, 0xff):
                compare(prog, R, 'base64_encode', k, [ALL if j == i else [base] for j in range(k)], b64enc, 'encode:%d' % min(k % 3, k))
            compare(prog, R, 'base64_decode', k, [ALL if j == i else [ord('k')] for j in range(k)], b64dec, 'decode:%d' % (k % 4))
    # round trip: the reference functions are inverse on every text the comparison covers
    for k in range(4):
        for a in itertools.product(few, repeat=k):
            e = b64enc(bytes(a))[1]
            if b64dec(e) != (1, bytes(a)): raise AnalysisError("the reference is not invertible")


# ------------------------------------------------------------------ C20
def order(prog, R, tier, bounds_only=False):
    if not bounds_only: R.rule("to_intN/to_uintN read, and from_intN/from_uintN write, exactly N/8 bytes, most significant first, for both signed and unsigned byte pointers, and each reader undoes its writer")
    n = 0
    for f in list(prog.funcs.values()) if isinstance(prog.funcs, dict) else prog.funcs:
        s = f['sfn']
        if not s.startswith(A): continue
        nm = s[len(A):]
        import re
        m = re.match(r'^(to|from)_(u?)int(8|16|24|32|64)$', nm)
        if not m: continue
        kind, uns, bits = m.group(1), m.group(2), int(m.group(3))
        width = {24: 32}.get(bits, bits)
        nb = bits // 8
        ps = params(f)
        t0 = ps[0][0]
        n += 1
        touched = {}

        class H(Hooks):
            def read(self, E, S, fr, loc, val, nn):
                if loc[0] == 'd' and BUF in lin(loc[1])[1]: touched[sub(loc[1], BUF)] = 1

            def write(self, E, S, fr, loc, val, nn):
                if loc[0] == 'd' and BUF in lin(loc[1])[1]: touched[sub(loc[1], BUF)] = 1
        E = Engine(prog, H())
        ptr = t0.endswith('*')
        unsigned = 'unsigned' in t0
        args = [('init', ('o', 'arg', i)) for i in range(len(ps))]

        def setup(E, S, fr):
            S.setint(BUF, ((4096, 1 << 46),))
            for i in range(9): TAG[('init', ('d', add(BUF, i)))] = ('i', 8, not unsigned)
            for i, pv in enumerate(f['params']):
                if ptr and i == 0: S.mem[('v', fr.id, pv)] = BUF; continue
                S.mem[('v', fr.id, pv)] = args[i]
        if ptr and kind == 'from': TAG[args[1]] = ('i', width, not uns)
        elif not ptr:
            for i, a in enumerate(args): TAG[a] = ('i', 8, ps[i][0] == 'char' or ps[i][0] == 'signed char')
        # the same atoms are used with several types: forget cached tags
        fr, ex = E.entry(f, this=('o', 'this'), setup=setup)
        R.engine(E)
        key = '%s(%s)' % (nm, ', '.join(t for t, l in ps))
        if any(k == 'throw' for k, S, v in ex) or len(ex) != 1:
            R.ob(key, False, where(f), "has %d outcomes" % len(ex)); continue
        k_, S, v = ex[0]
        if ptr: R.ob(key, sorted(touched) == list(range(nb)) if all(isinstance(x, int) for x in touched) else False, where(f), "touches bytes %s instead of %d" % (sorted(map(str, touched)), nb))
        if bounds_only: continue
        vals = [[x] * nb for x in (0, 0xff, 0x80, 0x7f)] + [[0] * i + [x] + [0] * (nb - 1 - i) for i in range(nb) for x in ALL] + [[(0x12 + 0x22 * i) & 255 for i in range(nb)], [(0xfe - 0x11 * i) & 255 for i in range(nb)]]
        ok = True
        for bs in vals:
            num = int.from_bytes(bytes(bs), 'big')
            if kind == 'to':
                at = (lambda i: ('init', ('d', add(BUF, i)))) if ptr else (lambda i: args[i])
                env = {at(i): (x if (unsigned or not ptr and 'unsigned' in ps[i][0]) else sg(x)) for i, x in enumerate(bs)}
                got = conc(retval(E, S, v), env, prog)
                w = num
                if not uns and bits != 24 and num >= 1 << (bits - 1): w = num - (1 << bits)
            else:
                nv = num if uns or bits == 24 or num < 1 << (bits - 1) else num - (1 << bits)
                env = {args[1]: nv}
                got = [conc(E.read(S, ('d', add(BUF, i)), ('i', 8, not unsigned)), env, prog) for i in range(nb)]
                got = [None if g is None else g & 255 for g in got]
                w = bs
            if got != w:
                R.ob(key, False, where(f), "bytes %s are %s as %s" % (['%02x' % x for x in bs], 'read' if kind == 'to' else 'written', got)); ok = False
                break
        if ok: R.ob(key, True, where(f))
    R.floor('byte order functions', n, 20)


# ------------------------------------------------------------------ C21
URLSAFE = set(range(33, 127)) - set(b'$&+,/:;=?@"<>#%{}|\\^~[]`')


def urlenc(b):
    return b''.join(bytes([c]) if c in URLSAFE else b'%%%02X' % c for c in b)


HEX = set(b'0123456789abcdefABCDEF')


def urldec(b):
    out, i = b'', 0
    while i < len(b):
        c = b[i]
        if c == 43: out += b' '
        elif c == 37 and i + 2 < len(b) and b[i + 1] in HEX and b[i + 2] in HEX and b[i + 1:i + 3] != b'00':
            out += bytes([int(b[i + 1:i + 3], 16)])
            i += 2
        else: out += bytes([c])
        i += 1
    return out


def xmlenc(b):
    out, i = b'', 0
    esc = {38: b'&amp;', 60: b'&lt;', 62: b'&gt;', 34: b'&quot;', 39: b'&apos;'}
    b2 = b + b'\0'
    cont = lambda j: j < len(b2) and 0x80 <= b2[j] <= 0xbf
    while i < len(b):
        c = b[i]
        n = 0
        if 0x20 <= c <= 0x7f or c in (9, 10, 13): out += esc.get(c, bytes([c]))
        elif 0xc2 <= c <= 0xdf: n = 1
        elif 0xe0 <= c <= 0xef: n = 2
        elif 0xf0 <= c <= 0xf4: n = 3
        else: out += b'\xef\xbf\xbd'
        if n:
            if all(cont(i + j) for j in range(1, n + 1)):
                out += b[i:i + n + 1]
                i += n
            else: out += b'\xef\xbf\xbd'
        i += 1
    return out


def coding(prog, R, tier):
    R.rule("url_encode(), url_decode() and xml_encode() give, for every byte in every position, exactly the text of the coding table: url_encode escapes all but the safe characters, url_decode undoes it and leaves everything that is not an escape alone, xml_encode escapes the five markup characters and replaces what is not well-formed UTF-8")
    th = tier == 'thorough'
    reps = list(b'%+09afAFgG@/:` -x1') + [0, 0x7f, 0x80, 0xff]
    for k in range(0, 4):
        compare(prog, R, 'url_decode', k, [reps] * k, urldec, 'url_decode')
        for i in range(k): compare(prog, R, 'url_decode', k, [ALL if j == i else list(b'%4') for j in range(k)], urldec, 'url_decode')
    compare(prog, R, 'url_decode', 4, [list(b'%+4g0'), list(b'%4g0-'), list(b'%1G0+'), list(b'%41z+') + [0]], urldec, 'url_decode')
    if th: compare(prog, R, 'url_decode', 6, [list(b'%a'), list(b'%4'), list(b'%1g'), list(b'%4'), list(b'%1'), list(b'%1x')], urldec, 'url_decode')
    compare(prog, R, 'url_encode', 0, [], urlenc, 'url_encode')
    compare(prog, R, 'url_encode', 1, [ALL], urlenc, 'url_encode')
    compare(prog, R, 'url_encode', 2, [reps, ALL], urlenc, 'url_encode')
    x = [0x00, 0x09, 0x1f, 0x20, 0x26, 0x3c, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf5, 0xff]
    compare(prog, R, 'xml_encode', 0, [], xmlenc, 'xml_encode')
    compare(prog, R, 'xml_encode', 1, [ALL], xmlenc, 'xml_encode')
    compare(prog, R, 'xml_encode', 2, [ALL, x], xmlenc, 'xml_encode')
    compare(prog, R, 'xml_encode', 2, [x, ALL], xmlenc, 'xml_encode')
    compare(prog, R, 'xml_encode', 3, [x, x, x], xmlenc, 'xml_encode')
    y = [0x3c, 0x80, 0xbf, 0xc2, 0xe1, 0xf1, 0xf4, 0x7f, 0xc0]
    c = [0x7f, 0x80, 0xbf, 0xc0]
    for ps in ([ALL, c, c], [x, ALL, c], [x, c, ALL]): compare(prog, R, 'xml_encode', 3, ps, xmlenc, 'xml_encode')
    z = [0xdf, 0xe0, 0xef, 0xf0, 0xf4]
    for ps in ([y, y, y, y], [ALL, c, c, c], [z, ALL, c, c], [z, c, ALL, c], [z, c, c, ALL]): compare(prog, R, 'xml_encode', 4, ps, xmlenc, 'xml_encode')
    compare(prog, R, 'xml_encode', 5, [z, c, c, c, y], xmlenc, 'xml_encode')
    compare(prog, R, 'url_encode', 3, [reps, list(b'%A~') + [0x80], reps], urlenc, 'url_encode')
