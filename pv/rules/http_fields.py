"""C14: the form, cookie and multipart parsers."""
import itertools
from ..load import AnalysisError
from ..eng import add, sub, TAG, lin, subterms, s_list
from ..step import BUF, byte, retval
from ..drive import Drive, drive, acc, MAXLEN
from ..report import where
from .httpmsg import Scen, params, evs, P
from .http_body import same, le

INF = 1 << 62


def value(t, bs, n0):
    """(accumulator label, following byte values) of a string term when the unknown bytes are bs"""
    parts = t[1:] if isinstance(t, tuple) and t[0] == 'cat' else (t,)
    base, out = '', []
    for i, p in enumerate(parts):
        if not isinstance(p, tuple): return None
        if p[0] == 'init' and p[1][:2] == ('o', 'acc'):
            if i: return None
            base = p[1][2]
        elif p[0] == 'str': out += [ord(c) for c in p[1]]
        elif p[0] == 'chr':
            x = p[1]
            while isinstance(x, tuple) and x[0] in ('cast', 'wrap'): x = x[3]
            if isinstance(x, int): out.append(x & 255); continue
            if not (x[0] == 'init' and x[1][0] == 'd'): return None
            c, d = lin(x[1][1])
            if set(d) != {BUF} or not n0 <= c < n0 + len(bs): return None
            out.append(bs[c - n0] & 255)
        elif p[0] == 'rng':
            a, b = [lin(q) for q in p[1:3]]
            if set(a[1]) != {BUF} or set(b[1]) != {BUF} or a[0] < n0 or b[0] > n0 + len(bs): return None
            out += [x & 255 for x in bs[a[0] - n0:b[0] - n0]]
        else: return None
    return base, tuple(out)


class M(object):
    """a machine state of the specification"""
    def __init__(s, **k): s.__dict__.update(k)

    def copy(s, **k):
        m = M(**s.__dict__)
        m.guard = dict(s.guard)
        m.__dict__.update(k)
        return m


def room(m, field, limit):
    """[(machine, is there room)]: the accumulator against its limit"""
    lab, bs = getattr(m, field)
    if not lab: return [(m, len(bs) < limit)]
    lo, hi = m.guard.get(lab, (1, INF))
    cut = limit - len(bs)
    out = []
    if lo < cut: out.append((m.copy(guard=dict(m.guard, **{lab: (lo, min(hi, cut - 1))})), True))
    if hi >= cut: out.append((m.copy(guard=dict(m.guard, **{lab: (max(lo, cut), hi)})), False))
    return out


def put(m, field, b, limit):
    res = []
    for x, ok in room(m, field, limit):
        if ok:
            lab, bs = getattr(x, field)
            setattr(x, field, (lab, bs + (b & 255,))) if x is not m else None
            if x is m: x = m.copy(**{field: (lab, bs + (b & 255,))})
        else: x = x.copy(ret=0)
        res.append(x)
    return res


def nonempty(v): return bool(v[0] or v[1])


def control(b): return 0 <= b < 32 or b == 127


def run_spec(m, bs, step, finish):
    cur = [m]
    for b in bs:
        nxt = []
        for x in cur:
            if x.ret is not None: nxt.append(x)
            else: nxt += step(x, b)
        cur = nxt
    return [y for x in cur for y in ([x] if x.ret is not None else finish(x))]


def lims(prog):
    out = {}
    for n in ('QUERY_NAME_MAX', 'QUERY_VALUE_MAX', 'COOKIE_NAME_MAX', 'COOKIE_VALUE_MAX'):
        g = prog.globals.get(P + n)
        if not g or 'int' not in g: raise AnalysisError("limit %s is gone" % n)
        out[n] = int(g['int'])
    return out


def compare(prog, R, f, key, prefix, accs, start, step, finish, reps, k, hooks, roles, evname, argmap, pre_events=()):
    """compare the abstract transfer function with the specification"""
    dl, pl, ll = roles
    E, fr, ex = drive(prog, f, prefix, k, hooks, accs=accs, ptr=pl, length=ll, setup=argmap)
    R.engine(E)
    n0 = len(prefix)
    total = 0
    for kind, S, v in ex:
        if kind == 'throw': continue
        combos = [()]
        for i in range(n0, n0 + k):
            r = S.rng(byte(i))
            B = set(s_list(r)) if r else set(range(-128, 128))
            combos = [c + (x[0],) for c in combos for x in ([b for b in cl if b in B] for cl in reps) if x]
        rv = retval(E, S, v)
        got = [e for e in evs(S) if e[0] == evname]
        for b in hooks.oob(): R.ob(key.split(':')[0] + ':bounds', False, where(f), "after %r: %s" % (prefix, b))
        R.ob(key.split(':')[0] + ':bounds', True, where(f))
        for bs in combos:
            T = S
            for i, b in enumerate(bs):
                T = T and E.assume(T, E.mkcmp(T, '==', byte(n0 + i), b), True)
            if T is None or any(not T.rng(t) for t in T.ints): continue
            for m in run_spec(start, bs, step, finish):
                ok = True
                for lab, (lo, hi) in m.guard.items():
                    r = S.rng(E.size_of(acc(lab)))
                    a, b = (r[0][0], r[-1][1]) if r else (1, INF)
                    if a > hi or b < lo: ok = False
                fx = getattr(m, 'facts', {})
                for lab, want in fx.items():
                    t = E.truth_of(S, lab) if not isinstance(lab, int) else bool(lab)
                    if t is not None and bool(t) != want: ok = False
                if not ok: continue
                total += 1
                pr = None
                if rv != m.ret: pr = "returns %s, expected %s" % (rv, m.ret)
                else:
                    g = [tuple(value(t, bs, n0) for t in e[1:]) for e in got]
                    if g != list(m.out): pr = "records %s, expected %s" % (show(g), show(m.out))
                R.ob(key, pr is None, where(f), "after %r, input %r: %s" % (prefix, bytes(x & 255 for x in bs), pr), S.path() if pr else None)
    return total


def show(l): return [tuple(None if x is None else (x[0] + '*' if x[0] else '') + bytes(x[1]).decode('latin1') for x in e) for e in l]


def reps_of(sig):
    d = {}
    for b in range(-128, 128): d.setdefault(sig(b), []).append(b)
    return list(d.values())


class Dict(Drive):
    """records what is inserted in the dictionary argument"""
    dict_loc = None

    def call(self, E, S, fr, n, info):
        nm, cls = info['nm'] or '', info['cls'] or ''
        if nm == 'url_decode' and info['args']:
            a = info['args'][0]
            c = E.content(S, a[1]) if isinstance(a, tuple) and a[0] == 'L' else a
            return [(S, E.tmp(S, fr, info['nid'], ('app', 'url_decode', c)))]
        if nm in ('make_pair',) or (info.get('ctor') and cls.startswith('std::pair<') and len(info['args']) == 2):
            t = ('app', 'pair') + E.content_args(S, info['args'])
            if info.get('ctor'):
                S.mem[info['obj']] = t
                return [(S, None)]
            return [(S, E.tmp(S, fr, info['nid'], t))]
        if info.get('ctor') and cls.startswith('std::pair<') and len(info['args']) == 1:
            c = E.content_args(S, info['args'])[0]
            if isinstance(c, tuple) and c[:2] == ('app', 'pair'):
                S.mem[info['obj']] = c
                return [(S, None)]
        if info['obj'] == self.dict_loc and nm in ('insert', 'emplace'):
            c = E.content_args(S, info['args'])
            if len(c) == 1 and isinstance(c[0], tuple) and c[0][:2] == ('app', 'pair'): c = c[0][2:]
            self.ev(S, 'insert', *[self.plain(x) for x in c])
            return [(S, 0)]
        return Drive.call(self, E, S, fr, n, info)

    def plain(self, t): return t


# ------------------------------------------------------------------ url-encoded
class Url(Dict):
    def plain(self, t):
        if isinstance(t, tuple) and t[:2] == ('app', 'url_decode'): return t[2]
        return ('app', 'not decoded', t)


def fields(prog, R, tier):
    R.rule("url-encoded, cookie and multipart parsers: from every control state reachable through a constant prefix, with arbitrary accumulated text, every sequence of next bytes yields exactly the dictionary entries, verdict and limits of the table in the rule; no read leaves the given range")
    L = lims(prog)
    urlenc(prog, R, tier, L)
    cookies(prog, R, tier, L)
    multipart(prog, R, tier)


def pick(f, what):
    ps = params(f)
    dl = [l for t, l in ps if 'multimap' in t]
    pl = [l for t, l in ps if t.rstrip().endswith('*') and 'char' in t]
    ll = [l for t, l in ps if t.replace('const ', '').strip() in ('unsigned long', 'std::size_t', 'size_t')]
    if not dl or not pl or not ll: raise AnalysisError("%s has changed its parameters" % what)
    return dl[0], pl[0], ll[0]


def by_ptr(prog, name):
    c = [f for f in prog.fn(name) if any(t.rstrip().endswith('*') for t, l in params(f))]
    if len(c) != 1: raise AnalysisError("expected one %s on a character range, found %d" % (name, len(c)))
    return c[0]


def urlenc(prog, R, tier, L):
    f = by_ptr(prog, P + 'parse_url_encoded')
    roles = pick(f, 'parse_url_encoded')

    def step(m, b):
        if b in (13, 10, 9) and m.st in 'NV': return [m]
        if m.st == 'N':
            if b == ord('='): return [m.copy(st='V')]
            if b == ord('&'):
                if nonempty(m.name): return [m.copy(out=m.out + ((m.name, m.value),), name=('', ()))]
                return [m]
            if control(b): return [m.copy(ret=0)]
            return put(m, 'name', b, L['QUERY_NAME_MAX'])
        if b == ord('&'):
            out = m.out + ((m.name, m.value),) if nonempty(m.name) else m.out
            return [m.copy(st='N', out=out, name=('', ()), value=('', ()))]
        if b == ord(','):
            out = m.out + ((m.name, m.value),) if nonempty(m.name) else m.out
            return [m.copy(out=out, value=('', ()))]
        if control(b): return [m.copy(ret=0)]
        return put(m, 'value', b, L['QUERY_VALUE_MAX'])

    def finish(m):
        return [m.copy(ret=1, out=m.out + ((m.name, m.value),) if nonempty(m.name) else m.out)]
    reps = reps_of(lambda b: (b in (13, 10, 9), b == 61, b == 38, b == 44, control(b)))
    E0 = ('', ())
    tot = 0
    starts = [('', (), M(st='N', name=E0, value=E0)), ('q', ('q',), M(st='N', name=('q', ()), value=E0)),
              ('q=', ('q',), M(st='V', name=('q', ()), value=E0)), ('q=w', ('q', 'w'), M(st='V', name=('q', ()), value=('w', ()))),
              ('=', (), M(st='V', name=E0, value=E0)), ('=w', ('w',), M(st='V', name=E0, value=('w', ()))),
              ('q&', ('q',), M(st='N', name=E0, value=E0)), ('q=w&', ('q', 'w'), M(st='N', name=E0, value=E0)),
              ('q=w,', ('q', 'w'), M(st='V', name=('q', ()), value=E0))]
    for prefix, accs, m in starts:
        m.guard, m.out, m.ret = {}, (), None
        for k in (1, 2) if tier == 'quick' else (1, 2, 3):
            H = Url(); H.dict_loc = roles[0]
            tot += compare(prog, R, f, 'url-encoded:%r' % prefix, prefix, accs, m, step, finish, reps, k, H, roles, 'insert', None)
    R.count('url_encoded_situations', tot)
    R.floor('url-encoded situations', tot, 100)


# ------------------------------------------------------------------ cookies
def cookies(prog, R, tier, L):
    f = by_ptr(prog, P + 'parse_cookie_header')
    roles = pick(f, 'parse_cookie_header')
    sep = lambda b: b in (ord(';'), ord(','))
    quo = lambda b: b in (34, 39)

    def emit(m):
        """insert unless the name is a cookie attribute"""
        return m.out + (((m.name, m.value),) if isname(m.name) else ())

    def isname(n):
        # names in the table never match a Set-Cookie attribute: decided by their first byte and emptiness
        return nonempty(n) and not (n[0] == '' and n[1][:1] == (ord('$'),))

    def step(m, b):
        if m.st == 'N':
            if b == ord('='): return [m.copy(st='V')]
            if sep(b): return [m.copy(out=emit(m), name=('', ()))]
            if b == 32: return [m]
            if control(b): return [m.copy(ret=0)]
            return put(m, 'name', b, L['COOKIE_NAME_MAX'])
        if m.st == 'V':
            if sep(b): return [m.copy(st='N', out=emit(m), name=('', ()), value=('', ()))]
            if quo(b) and not nonempty(m.value): return [m.copy(st='Q' + chr(b))]
            if b == 32 and not nonempty(m.value): return [m]
            if control(b): return [m.copy(ret=0)]
            return put(m, 'value', b, L['COOKIE_VALUE_MAX'])
        if m.st[0] == 'Q':
            if b == ord(m.st[1]): return [m.copy(st='I', out=emit(m), name=('', ()), value=('', ()))]
            return put(m, 'value', b, L['COOKIE_VALUE_MAX'])
        if m.st == 'I': return [m.copy(st='N')] if sep(b) else [m]
    finish = lambda m: [m.copy(ret=1, out=emit(m))]
    reps = reps_of(lambda b: (sep(b), b == 61, b == 32, b == 34, b == 39, b == 36, control(b)))
    E0 = ('', ())
    tot = 0
    q, w = ('q', ()), ('w', ())
    starts = [('', (), M(st='N', name=E0, value=E0)), ('q', ('q',), M(st='N', name=q, value=E0)),
              ('q=', ('q',), M(st='V', name=q, value=E0)), ('q=w', ('q', 'w'), M(st='V', name=q, value=w)),
              ("q='", ('q',), M(st="Q'", name=q, value=E0)), ('q="', ('q',), M(st='Q"', name=q, value=E0)),
              ("q='w", ('q', 'w'), M(st="Q'", name=q, value=w)), ('q="w', ('q', 'w'), M(st='Q"', name=q, value=w)),
              ('$q=', (), M(st='V', name=('', (36, 113)), value=E0)), ('=', (), M(st='V', name=E0, value=E0)),
              ("$q=''", (), M(st='I', name=E0, value=E0)), ("q='w'", ('q', 'w'), M(st='I', name=E0, value=E0)),
              ("q='w';", ('q', 'w'), M(st='N', name=E0, value=E0)), ('q=w;', ('q', 'w'), M(st='N', name=E0, value=E0)),
              ('q;', ('q',), M(st='N', name=E0, value=E0)), ("q='w',r=", ('q', 'w', 'r'), M(st='V', name=('r', ()), value=E0))]

    class Cookie(Dict):
        def call(self, E, S, fr, n, info):
            nm = info['nm'] or ''
            if nm == 'is_cookie_attribute':
                c = E.content_args(S, info['args'])[0]
                return self.attr(E, S, c)
            return Dict.call(self, E, S, fr, n, info)

        def attr(self, E, S, c):
            if c == ('str', ''): return [(S, 1)]
            parts = c[1:] if c[0] == 'cat' else (c,)
            p = parts[0]
            if p[0] == 'init': return [(S, 0)]
            if p[0] == 'str': return [(S, int(p[1][:1] == '$'))]
            if p[0] == 'chr':
                x = p[1]
                if isinstance(x, int): return [(S, int(x == 36))]
                t = E.mkcmp(S, '==', x, 36)
                return [(S, t)]
            return None
    for prefix, accs, m in starts:
        m.guard, m.out, m.ret = {}, (), None
        for k in (1, 2) if tier == 'quick' else (1, 2, 3):
            H = Cookie(); H.dict_loc = roles[0]
            tot += compare(prog, R, f, 'cookie:%r' % prefix, prefix, accs, m, step, finish, reps, k, H, roles, 'insert', None)
    R.count('cookie_situations', tot)
    R.floor('cookie situations', tot, 100)

    # what counts as an attribute
    f = prog.one(P + 'is_cookie_attribute')
    ATTR = ('Comment', 'Domain', 'Max-Age', 'Path', 'Secure', 'Version', 'Expires', 'HttpOnly')
    ps = params(f)
    sl = [l for t, l in ps if 'basic_string' in t]
    fl_ = [l for t, l in ps if t.replace('const ', '').strip() == 'bool']
    from ..eng import Engine, Hooks
    n = 0
    for name in ('', '$Path', '$', 'q', 'pat', 'paths') + ATTR + tuple(x.lower() for x in ATTR) + tuple(x.upper() for x in ATTR):
        for sc in (0, 1):
            E = Engine(prog, Hooks())

            def setup(E, S, fr):
                S.mem[sl[0]] = ('str', name)
                for pv in f['params']:
                    if fl_ and S.mem.get(('v', fr.id, pv)) == ('init', fl_[0]): S.mem[('v', fr.id, pv)] = sc
            fr, ex = E.entry(f, setup=setup)
            want = name == '' or name[0] == '$' or bool(sc and name.lower() in [x.lower() for x in ATTR])
            for kind, S, v in ex:
                v = retval(E, S, v)
                t = E.truth_of(S, v) if not isinstance(v, int) else v
                if t is not None: n += 1
                R.ob('cookie-attribute', t is None or bool(t) == want, where(f), "%r in a %s header is %staken for a cookie" % (name, 'Set-Cookie' if sc else 'Cookie', 'not ' if want is False else ''))
    R.count('attribute_names', n)


# ------------------------------------------------------------------ multipart
class Multi(Dict):
    """boundary is --bb; the searches are resolved on the constant parts of the input"""
    unroll = 400
    layout = ""        # constant characters, None where unknown

    def call(self, E, S, fr, n, info):
        nm = info['nm'] or ''
        if info['sfn'] in ('std::search',) and len(info['args']) == 4:
            a = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x for x in info['args'][:2]]
            p, e = sub(a[0], BUF), sub(a[1], BUF)
            if not isinstance(p, int) or not isinstance(e, int): raise AnalysisError("the search range is not a position in the input: %r" % (a,))
            if p < 0 or e > len(self.layout) or p > e: self.bad.append("searches outside the input")
            r = e
            for i in range(p, e - 3):
                if [x for x in self.layout[i:i + 4]] == list('--bb'):
                    r = i; break
            return [(S, add(BUF, r))]
        if info['obj'] == self.ct_loc:
            if nm == 'find': return [(S, 0)]
            if nm == 'substr': return [(S, E.tmp(S, fr, info['nid'], ('str', 'bb')))]
        if nm == 'binary_2base64':
            self.ev(S, 'base64', *[E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x for x in info['args']])
            E.write(S, fr, info['args'][0][1], ('str', '<base64>'))
            return [(S, 1)]
        return Dict.call(self, E, S, fr, n, info)

    def str_oob(self, E, S, i, text):
        self.bad.append("reads character %d of the string %r" % (i, text))
        raise AnalysisError("reading past the end of a string")

    def range_read(self, E, S, fr, n, p, ln):
        a, b = sub(p, BUF), ln
        if not isinstance(a, int) or not isinstance(b, int):
            return
        if a < 0 or b < 0 or b >= 1 << 63 or a + b > len(self.layout): self.bad.append("takes the range [%d, %+d) of an input of %d bytes" % (a, b if b < 1 << 63 else b - (1 << 64), len(self.layout)))


def multipart(prog, R, tier):
    f = by_ptr(prog, P + 'parse_multipart_form_data')
    roles = pick(f, 'parse_multipart_form_data')
    cts = [l for t, l in params(f) if 'basic_string' in t and 'multimap' not in t]
    if not cts: raise AnalysisError("parse_multipart_form_data has lost its content type")
    CD = 'Content-Disposition: form-data; name="f"\r\n'
    n = 0

    def one(key, parts, want, ret, lim=None):
        """parts: constant strings and numbers of unknown bytes; want: inserted (name, value) with unknown bytes as indexes"""
        nonlocal n
        lay, unk = [], []
        for p in parts:
            if isinstance(p, int):
                unk += range(len(lay), len(lay) + p); lay += [None] * p
            else: lay += list(p)
        H = Multi(); H.dict_loc, H.ct_loc, H.layout, H.bad = roles[0], cts[0], lay, []
        H.prefix, H.accs = '', frozenset()
        from ..eng import Engine
        E = Engine(prog, H)

        def setup(E, S, fr):
            S.setint(BUF, ((4096, 1 << 46),))
            for i, c in enumerate(lay):
                if c is not None: S.mem[('d', add(BUF, i))] = ord(c)
                else: byte(i)
            for pv in f['params']:
                l = ('v', fr.id, pv)
                if S.mem.get(l) == ('init', roles[1]): S.mem[l] = BUF
                if S.mem.get(l) == ('init', roles[2]): S.mem[l] = len(lay)
        txt = ''.join('?' if c is None else c for c in lay)
        try: fr, ex = E.entry(f, setup=setup)
        except AnalysisError:
            if not H.bad: raise
            ex = ()
        R.engine(E)
        got = 0
        for kind, S, v in ex:
            if kind == 'throw': continue
            got += 1; n += 1
            rv = retval(E, S, v)
            bs = tuple(range(1000, 1000 + len(lay)))
            ins = [e for e in evs(S) if e[0] == 'insert']
            pr = None
            if ret is not None and rv != ret: pr = "returns %s, expected %s" % (rv, ret)
            if want is not None and not pr:
                g = []
                for e in ins:
                    row = []
                    for t in e[1:]:
                        parts_ = t[1:] if t[0] == 'cat' else (t,)
                        o = []
                        for q in parts_:
                            if q[0] == 'str': o += list(q[1])
                            elif q[0] == 'rng':
                                lo, hi = sub(q[1], BUF), sub(q[2], BUF)
                                o += [lay[i] if lay[i] is not None else i for i in range(lo, hi)] if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi <= len(lay) else ['?']
                            elif q[0] == 'chr' and isinstance(q[1], tuple):
                                o.append(lin(q[1][1][1])[0] if q[1][0] == 'init' else '?')
                            else: o.append('?')
                        row.append(o)
                    g.append(row)
                w = [[list(a), list(b)] for a, b in want]
                if g != w: pr = "records %s, expected %s" % (g, w)
            if not pr and lim == 'base64':
                e = [x for x in evs(S) if x[0] == 'base64']
                if len(e) != 1 or not any(a == add(BUF, unk[0]) for a in e[0][1:]) or len(unk) not in e[0][1:]: pr = "the field's content is not what is encoded"
            R.ob('multipart:' + key, pr is None, where(f), "on %r: %s" % (txt, pr), S.path() if pr else None)
        if not got and ret is not None: R.ob('multipart:' + key, False, where(f), "on %r: no outcome" % txt)
        for b in H.bad: R.ob('multipart:bounds', False, where(f), "on %r: %s" % (txt, b))
        for b in H.oob(): R.ob('multipart:bounds', False, where(f), "on %r: %s" % (txt, b))
        R.ob('multipart:bounds', True, where(f))
        return unk
    for k in (0, 1, 2, 3):
        base = len('--bb\r\n' + CD + '\r\n')
        u = list(range(base, base + k))
        one('field', ['--bb\r\n' + CD + '\r\n', k, '\r\n--bb--\r\n'], [('f', u)], 1)
        one('field-lf', ['--bb\r\n' + CD + '\r\n', k, '--bb--\r\n'], [('f', u)] if k < 2 else None, 1)
        t = 'Content-Type: text/plain\r\n'
        u2 = [x + len(t) for x in u]
        one('text', ['--bb\r\n' + t + CD + '\r\n', k, '\r\n--bb--\r\n'], [('f', u2)], 1)
        if k:
            t = 'Content-Type: image/png\r\n'
            one('binary', ['--bb\r\n' + CD + t + '\r\n', k, '\r\n--bb--\r\n'], [('f', '<base64>')], 1, 'base64')
        one('nameless', ['--bb\r\n' + 'X-Y: z\r\n' + '\r\n', k, '\r\n--bb--\r\n'], [], 1)
        two = '--bb\r\n' + CD + '\r\n', k, '\r\n--bb\r\n' + CD.replace('"f"', '"gg"') + '\r\n', 2, '\r\n--bb--'
        b2 = base + k + len(two[2])
        one('two-fields', list(two), [('f', u), ('gg', [b2, b2 + 1])], 1)
        one('type-reset', ['--bb\r\n' + CD + 'Content-Type: image/png\r\n\r\n', 1, two[2], 2, '\r\n--bb--'], [('f', '<base64>'), ('gg', [b2 + 25, b2 + 26])] if k == 1 else None, 1)
        for t in ('x\n', '\ry', 'x\r', '\n\r'):
            one('data-end', ['--bb\r\n' + CD + '\r\n', k, t + '--bb--\r\n'], [('f', u + list(t))], 1)
        t = CD + 'Content-Type: text/html\r\n'
        one('text-after', ['--bb\r\n' + t + '\r\n', k, '\r\n--bb--'], [('f', [x + len(t) - len(CD) for x in u])], 1)
        t = 'Content-Disposition: form-data; name="f\r\n'
        one('unterminated-name', ['--bb\r\n' + t + '\r\n', k, '\r\n--bb--'], [('f', [x - 1 for x in u])], 1)
    # every control state on unknown bytes: bounds and verdicts only
    for pre in ('', '--bb', '--bb\r', '--bb\n', '--bb\r\n', '--bb\r\nq', '--bb\r\nq:', '--bb\r\nq: w', '--bb\r\n\r', '--bb\r\n' + CD + '\r', '--bb\r\n' + CD, '--bb\r\n' + CD + '\r\n', '--bb\n\n'):
        for k in (1, 2):
            for suf in ('', '--bb', '\r\n--bb', '\n--bb--'):
                one('any', [pre, k, suf], None, None)
    for bad in ('--bbx', '--bb\rx', '--bb\r\n\rx', '--bb-', '--bb-x'):
        one('malformed', [bad], [], 0)
    one('end', ['--bb--'], [], 1)
    R.count('multipart_outcomes', n)
    R.floor('multipart outcomes', n, 40)
