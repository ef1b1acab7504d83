"""Transfer functions of parsers whose state is in local variables.

The input starts with a constant prefix that selects the control state; when the prefix
has been consumed every accumulator (a string built from prefix bytes) is replaced by an
arbitrary non-empty string, so what follows holds for every history that leads to the same
control state.  The following k bytes are unknown."""
from .eng import Engine, Hooks, add, sub, TAG, lin
from .step import BUF, byte
from .rules.httpmsg import Scen

MAXLEN = 1 << 40


def acc(s):
    t = ('init', ('o', 'acc', s))
    TAG[t] = 'str'
    return t


class Drive(Scen):
    unroll = 60
    prefix = ''
    keep = ()          # prefix texts that stay constant

    def generalise(self, E, S):
        S.mon['gen'] = 1
        S.mon['ev'] = ()      # what the prefix itself records is checked from the earlier states
        for l, v in list(S.mem.items()):
            if isinstance(v, tuple) and v and v[0] == 'str' and v[1] and v[1] in self.accs:
                t = acc(v[1])
                S.mem[l] = t
                S.setint(E.size_of(t), ((1, MAXLEN),))

    def write(self, E, S, fr, loc, val, n):
        if 'gen' not in S.mon and val == add(BUF, len(self.prefix)) and self.prefix and loc[0] in ('v', 'f'):
            # only a position that has been advanced, not an end pointer
            if S.mem.get(('prev', loc)) is not None or self.seen(S, loc): self.generalise(E, S)
        if isinstance(val, tuple) and TAG.get(val) == 'p' and loc[0] in ('v', 'f') and BUF in lin(val)[1]:
            S.mon[('pos', loc)] = 1

    def seen(self, S, loc): return ('pos', loc) in S.mon

    def oob(self):
        r, self._oob = sorted(getattr(self, '_oob', ())), set()
        return r

    def read(self, E, S, fr, loc, val, n):
        if loc[0] == 'd':
            c, d = lin(loc[1])
            size = len(self.layout) if hasattr(self, 'layout') else self.size
            if set(d) == {BUF} and not 0 <= c < size:
                if not hasattr(self, '_oob'): self._oob = set()
                self._oob.add("reads byte %d of an input of %d bytes" % (c, size))
        if 'gen' not in S.mon and self.prefix and loc[0] == 'd':
            c, d = lin(loc[1])
            if set(d) == {BUF} and c >= len(self.prefix): self.generalise(E, S)


def drive(prog, f, prefix, k, hooks, accs=(), ptr=None, length=None, setup=None, this=('o', 'this')):
    """abstract exits of f(ptr, len) on prefix + k unknown bytes; accs: texts that are accumulators"""
    hooks.size = len(prefix) + k
    hooks.prefix, hooks.accs = prefix, frozenset(accs)
    E = Engine(prog, hooks)

    def su(E, S, fr):
        S.setint(BUF, ((4096, 1 << 46),))
        for i, c in enumerate(prefix):
            v = ord(c)
            S.mem[('d', add(BUF, i))] = v - 256 if v > 127 else v
        for i in range(len(prefix), len(prefix) + k): byte(i)
        for pv in f['params']:
            l = ('v', fr.id, pv)
            if S.mem.get(l) == ('init', ptr): S.mem[l] = BUF
            if S.mem.get(l) == ('init', length): S.mem[l] = len(prefix) + k
        if setup: setup(E, S, fr)
    fr, ex = E.entry(f, this=this, setup=su)
    return E, fr, ex


def accum(t, n0):
    """(label or '', indexes of unknown bytes relative to n0) of a string term; None if it is something else"""
    parts = t[1:] if isinstance(t, tuple) and t[0] == 'cat' else (t,)
    base, idx = '', []
    for i, p in enumerate(parts):
        if p == ('str', ''): continue
        if isinstance(p, tuple) and p[0] == 'init' and p[1][:2] == ('o', 'acc'):
            if i: return None
            base = p[1][2]; continue
        if isinstance(p, tuple) and p[0] == 'str':
            idx.extend(p[1]); continue
        if isinstance(p, tuple) and p[0] == 'chr':
            x = p[1]
            while isinstance(x, tuple) and x[0] in ('cast', 'wrap'): x = x[3]
            if isinstance(x, int): idx.append(chr(x & 255)); continue
            c, d = lin(x[1][1]) if isinstance(x, tuple) and x[0] == 'init' and x[1][0] == 'd' else (None, {})
            if set(d) != {BUF}: return None
            idx.append(c - n0); continue
        return None
    return base, tuple(idx)
