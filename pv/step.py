"""Transfer functions of byte-driven parsers, one control state at a time."""
from .eng import Engine, Hooks, add, TAG, lin, subterms, conc, s_list
from .load import AnalysisError

BUF = ('init', ('o', 'buf'))
TAG[BUF] = 'p'


def byte(i):
    t = ('init', ('d', add(BUF, i)))
    TAG[t] = ('i', 8, True)
    return t


def run(prog, f, k, fields, hooks, this=('o', 'this'), read='m_read_ptr', end='m_read_end_ptr', cls='', S=None, extra=None):
    """abstract exits of f on a buffer of k unknown bytes, with the given constant fields"""
    E = Engine(prog, hooks)

    def setup(E, S, fr):
        S.setint(BUF, ((4096, 1 << 46),))
        S.mem[('f', this, cls + read)] = BUF
        S.mem[('f', this, cls + end)] = add(BUF, k)
        for n, v in fields.items(): S.mem[('f', this, cls + n)] = v
        for i in range(k): byte(i)
        if extra: extra(E, S, fr)
    fr, ex = E.entry(f, this=this, setup=setup)
    return E, fr, ex


def retval(E, S, v):
    if isinstance(v, tuple) and v and v[0] == 'L': v = E.content(S, v[1])
    return v


def error_of(E, S, loc):
    """('none',) / ('err', code, category term) / ('?', term)"""
    c = E.content(S, loc)
    if c == ('init', loc): return ('none',)
    if isinstance(c, tuple) and c[0] == 'app' and c[1] == 'ctor:boost::system::error_code':
        if len(c) == 2: return ('cleared',)
        if isinstance(c[2], int): return ('err', c[2], c[3] if len(c) > 3 else None)
    return ('?', c)


def content(E, S, loc, k):
    """(base, byte indexes) of a string: base 'init' or '' ; None when it is something else"""
    c = E.content(S, loc)
    init = ('init', loc)
    parts = list(c[1:]) if isinstance(c, tuple) and c[0] == 'cat' else [c]
    base, out = '', []
    bs = {byte(i): i for i in range(k)}
    for j, p in enumerate(parts):
        if p == init and j == 0: base = 'init'
        elif isinstance(p, tuple) and p[0] == 'str' and p[1] == '': continue
        elif isinstance(p, tuple) and p[0] == 'chr' and p[1] in bs: out.append(bs[p[1]])
        elif isinstance(p, tuple) and p[0] == 'rng':
            q = [add(p[1], BUF, -1), add(p[2], BUF, -1)]
            if all(isinstance(x, int) for x in q): out += range(q[0], q[1])
            else: return None
        else: return None
    return (base, tuple(out))


def size_range(S, loc):
    """range the path assumes for the initial size of a string"""
    t = ('app', 'size', ('init', loc))
    r = S.ints.get(t)
    if not r: return (0, 1 << 63)
    return (max(0, r[0][0]), min(r[-1][1], 1 << 63))


def bytes_of(S, i):
    r = S.rng(byte(i))
    return [x for x in s_list(r)] if r else list(range(-128, 128))
