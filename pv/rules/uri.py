"""C38 a URI is split into exactly its parts: symbolic texts made of literal and arbitrary pieces."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..report import where
from .httpmsg import params, evs
from .auth import AU, app, meth

I64 = ('i', 64, False)
NPOS = (1 << 64) - 1
STR = ('std::basic_string', 'std::string')


def sym(name, never=()): return ('sym', name, tuple(never))


def seg(*s):
    out = []
    for x in s:
        out += list(x) if isinstance(x, str) else [x]        # literals by the character
    return app('text', tuple(out))


def segs(v):
    if isinstance(v, tuple) and v[:2] == ('app', 'text'): return v[2]
    if isinstance(v, tuple) and v[:1] == ('str',): return tuple(v[1])
    return None


def mk(l): return ('str', ''.join(l)) if all(isinstance(x, str) for x in l) else app('text', tuple(l))


class UH(AU):
    """strings are sequences of literal characters and arbitrary pieces that never contain certain texts"""
    unroll = 40

    def plen(self, S, x):
        if isinstance(x, str): return 1
        t = app('length of', x[1], tag=I64)
        if t not in S.ints: S.setint(t, ((0 if not x[1].endswith('+') else 1, 1 << 20),))
        return t

    def total(self, S, l):
        r = 0
        for x in l: r = add(r, self.plen(S, x))
        return r

    def at(self, S, l, pos):
        r = 0
        if pos == 0: return 0
        for i, x in enumerate(l):
            r = add(r, self.plen(S, x))
            if r == pos: return i + 1
        return None

    def find(self, S, l, needle, start):
        """index of the piece at which the first match begins, -1: there is none, None: unknown"""
        i = start
        while i < len(l):
            x = l[i]
            if isinstance(x, str):
                k = 0
                while k < len(needle) and i + k < len(l) and l[i + k] == needle[k]: k += 1
                if k == len(needle): return i
                if k and i + k < len(l) and not isinstance(l[i + k], str):
                    # only the beginning of a match in front of an arbitrary piece: never with what follows here
                    nxt = l[i + k]
                    if not (needle in nxt[2] or any(c in nxt[2] for c in needle[k:k + 1])): return None
                    if not nxt[1].endswith('+') and needle not in nxt[2]: return None
            elif not (needle in x[2] or any(c in x[2] for c in needle)): return None
            i += 1
        return -1

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sfn = info['sfn'] or ''
        ext = not n.get('inroot')
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else (('str', v[1].rstrip('\0')) if isinstance(v, tuple) and v and v[0] == 'strp' else v)
        T = lambda v: E.tmp(S, fr, nid, v)
        if ext and sfn == 'boost::lexical_cast' and segs(sc(a[0])) is not None:
            v = app('number', tag=('i', 64, True))
            w, sg = n.get('w') or 32, n.get('sg')
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            S.mon['number of'] = segs(sc(a[0]))
            s2 = S.copy(); s2.mon['not a number'] = 1
            S.setint(v, ((lo, hi),))
            out = [(S, v), ('throw', s2, 'boost::bad_lexical_cast')]
            if not sg:
                s3 = S.copy(); w_ = app('negative number, wrapped', tag=('i', 64, False)); s3.setint(w_, ((0, hi),)); s3.mon['negative'] = 1
                out.append((s3, w_))
            return out
        if ext and strip_targs(cls) in STR and obj is not None:
            if info.get('ctor'):
                v = segs(sc(a[0])) if len(a) in (1, 2) else () if not a else None
                if len(a) >= 2 and v is not None and isinstance(a[1], int) and len(n.get('pt') or []) > 1 and 'alloc' not in (n.get('pt') or ['', ''])[1].lower(): v = None
                if len(a) == 3: v = self.sub_(S, segs(sc(a[0])), sc(a[1]), sc(a[2]))
                if v is not None: S.mem[obj] = mk(v); return [(S, None)]
                if segs(sc(a[0])) is not None or len(a) == 3: S.mem[obj] = app('an unknown text', len(S.mem)); return [(S, None)]
            l = segs(E.content(S, obj))
            if nm in ('operator=', 'assign'):
                v = sc(a[0])
                if len(a) == 1: E.write(S, fr, obj, v, n); return [(S, ('L', obj))]
                if len(a) == 3 and segs(v) is not None:
                    r = self.sub_(S, segs(v), sc(a[1]), sc(a[2]))
                    E.write(S, fr, obj, mk(r) if r is not None else app('an unknown text', len(S.mem)), n); return [(S, ('L', obj))]
            if nm == 'clear': E.write(S, fr, obj, ('str', ''), n); return [(S, 0)]
            if l is not None:
                if nm in ('size', 'length'): return [(S, self.total(S, l))]
                if nm == 'empty': return [(S, E.mkcmp(S, '==', self.total(S, l), 0))]
                if nm in ('find', 'find_first_of'):
                    x = sc(a[0]); x = chr(x) if isinstance(x, int) else x[1] if isinstance(x, tuple) and x[0] == 'str' else None
                    i = self.at(S, l, sc(a[1]) if len(a) > 1 else 0)
                    r = None
                    if x and i is not None and (nm == 'find' or len(x) == 1): r = self.find(S, l, x, i)
                    if r is None:
                        t = app('an unknown position', nid, tag=I64); S.setint(t, ((0, 1 << 20), (NPOS, NPOS))); return [(S, t)]
                    return [(S, NPOS if r < 0 else self.total(S, l[:r]))]
                if nm == 'substr':
                    v = [sc(x) for x in a] + [0, NPOS][len(a):]
                    r = self.sub_(S, l, v[0], v[1])
                    return [(S, T(mk(r) if r is not None else app('an unknown text', nid)))]
                if nm == 'resize' and len(a) == 1:
                    r = self.sub_(S, l, 0, sc(a[0]))
                    E.write(S, fr, obj, mk(r) if r is not None else app('an unknown text', nid), n); return [(S, 0)]
                if nm == 'erase' and len(a) <= 2:
                    v = [sc(x) for x in a] + [0, NPOS][len(a):]
                    i = self.at(S, l, v[0]); r = self.sub_(S, l, v[0], v[1])
                    E.write(S, fr, obj, mk(l[:i] + l[i + len(r):]) if r is not None else app('an unknown text', nid), n); return [(S, ('L', obj))]
                if nm in ('compare', 'operator==') and len(a) == 1 and segs(sc(a[0])) is not None:
                    return [(S, self.eq(S, l, segs(sc(a[0]))) ^ (nm == 'compare'))]
        if ext and nm in ('operator==', 'operator!=') and len(a) == 2 and obj is None:
            x, y = segs(sc(a[0])), segs(sc(a[1]))
            if x is not None and y is not None: return [(S, int(self.eq(S, x, y) == (nm == 'operator==')))]
        return AU.call(self, E, S, fr, n, info)

    def eq(self, S, x, y):
        """arbitrary pieces are none of the texts the code names"""
        return int(x == y)

    def sub_(self, S, l, p, k):
        if l is None: return None
        i = self.at(S, l, p)
        if i is None: return None
        if k == NPOS: return l[i:]
        j = self.at(S, l, add(p, k))
        return l[i:j] if j is not None and j >= i else None


def splits(prog, R):
    f = meth(prog, 'pion::http::parser::parse_uri')
    ps = params(f)
    NEVER = ('://',)
    protos = [None] + ['http', 'HTTP', 'https', 'HTTPS', sym('protocol', NEVER)]
    total = 0
    for pr in protos:
        more = NEVER if pr is None else ()
        for pt in (0, 1):
            for pa in (0, 1, 2):
                H_ = sym('host', ('/', ':') + more)
                N_ = sym('port+' if pr is None else 'port', ('/',) + ((':',) if pr is None else ()) + more)
                A_, Q_ = sym('path', ('?',) + more), sym('query', more)
                P_ = (pr,) if isinstance(pr, str) else (pr,) if pr else ()
                uri = seg(*(P_ + ('://',) if pr else ()), H_, *((':', N_) if pt else ()), *(('/', A_) if pa else ()), *(('?', Q_) if pa == 2 else ()))
                H = UH(); E = Engine(prog, H)
                olds = [app('old ' + x) for x in ('proto', 'host', 'path', 'query')]
                oldp = app('old port', tag=('i', 16, False))
                fr, ex = E.entry(f, this=None, setup=lambda E, S, fr: init_(E, S, fr, f, ps, uri, olds, oldp))
                R.engine(E)
                ex = [x for x in ex if x[0] in ('ret', 'throw')]
                if not ex: raise AnalysisError("parse_uri has no exit")
                for kind, s, v in ex:
                    total += 1
                    def ob(k, ok, m): R.ob("uri:" + k, ok, where(f), m, dict(uri=str(uri[2]), path=s.path()))
                    get = lambda i: E.content(s, ps[i][1])
                    if kind != 'ret': ob('returns', False, "throws"); continue
                    hl = H.plen(s, H_)
                    hz = dec(E, s, '==', hl, 0)
                    num = app('number', tag=('i', 64, True))
                    bad = hz == 1 or pt and (s.mon.get('not a number') or s.mon.get('negative') or s.mon.get('number of') is None or dec(E, s, '<', num, 0) == 1 or dec(E, s, '>', num, 65535) == 1)
                    if not isinstance(v, int): raise AnalysisError("the result of parse_uri is not decided")
                    if v == 0:
                        ob('refused', bool(bad), "refuses a URI that has a host and, if any, a valid port")
                        continue
                    ob('host', hz == 0 and segs(get(2)) == (H_,), "accepts a URI without a host, or takes something else for the host")
                    ob('protocol', segs(get(1)) == (tuple(pr) if isinstance(pr, str) else (pr,) if pr else ()), "the protocol is not what precedes the first ://")
                    if pt:
                        ob('port', not bad and s.mon.get('number of') == (N_,) and dec(E, s, '==', get(3), num) == 1 and dec(E, s, '>=', num, 0) == 1 and dec(E, s, '<=', num, 65535) == 1, "accepts a port that is not a number from 0 to 65535, or changes it")
                    else:
                        want = {'http': 80, 'HTTP': 80, 'https': 443, 'HTTPS': 443}.get(pr, 0) if isinstance(pr, str) else 0
                        ob('default port', get(3) == want, "another port than the protocol's")
                    ob('path', segs(get(4)) == (('/', A_) if pa else ('/',)), "the path is not what precedes the query, or /")
                    ob('query', segs(get(5)) == ((Q_,) if pa == 2 else ()), "the query is not what follows the first ? of the path, or is left from before")
    R.floor('exits of parse_uri', total, 60)
    return total


def dec(E, s, op, a, b):
    c = E.mkcmp(s, op, a, b)
    if isinstance(c, int): return c
    return 1 if E.assume(s.copy(), c, False) is None else 0 if E.assume(s.copy(), c, True) is None else None


def init_(E, S, fr, f, ps, uri, olds, oldp):
    S.mem[ps[0][1]] = uri
    for i, x in zip((1, 2, 4, 5), olds): S.mem[ps[i][1]] = x
    S.setint(oldp, ((0, 65535),)); S.mem[ps[3][1]] = oldp


def c38(prog, R, tier):
    R.rule("parse_uri is interpreted abstractly for every shape a URI can have around the first ://, :, / and ?; each part is an arbitrary text that does not contain the delimiter that ends it, and each output must be exactly the part it is named after")
    R.assumptions += ["boost::lexical_cast<int> accepts exactly the decimal numbers that fit"]
    R.count('exits of parse_uri', splits(prog, R))
