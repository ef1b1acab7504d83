"""C39 a resource is routed to the most specific registered identifier that covers it."""
from ..load import AnalysisError
from ..eng import Engine, TAG, add, sub
from ..maps import Maps, ent, key_loc, val_loc, FIRST, SECOND
from ..report import where
from .httpmsg import Scen, params, evs

this = ('o', 'this')


class RH(Maps, Scen):
    """n identifiers K1 < .. < Kn <= resource; whether each is a prefix stays open"""
    max_states = 4000
    unroll = 12

    sets = False
    LBL = 'map'

    @staticmethod
    def kl(i): return key_loc(i)

    def __init__(self, field, R):
        Scen.__init__(self)
        self.field, self.R = field, R

    def is_map(self, obj): return 'map' if obj[0] == 'f' and isinstance(obj[2], str) and obj[2].endswith('::' + self.field) else None

    def key_eq(self, E, S, a, b): return None

    def look(self, E, S, fr, m, k, n):
        ids = self.entries(S, m)[0]
        if k != self.R: return Maps.look(self, E, S, fr, m, k, n)
        s2 = S.copy()
        for i in ids: S.mon[('neq', i)] = 1
        out = [(S, 0)]
        if ids:
            s2.setint(eqsize(E, s2, self.R, ids[-1], self.kl), ((0, 0),))
            s2.setint(pre(ids[-1]), ((1, 1),))
            out.append((s2, ids[-1]))
        return out

    def bound(self, E, S, fr, m, nm, k, n):
        if k != self.R: return None
        if nm == 'upper_bound': return [(S, 0)]
        ids = self.entries(S, m)[0]
        out = [(S, 0)]
        if ids:
            s2 = S.copy()
            s2.setint(eqsize(E, s2, self.R, ids[-1], self.kl), ((0, 0),))
            s2.setint(pre(ids[-1]), ((1, 1),))
            out.append((s2, ids[-1]))
            S.mon['strict'] = 1
        return out

    def ident(self, E, S, v):
        c = E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        for i in self.entries(S, 'map')[0]:
            if c == ('init', self.kl(i)): return i
        return None

    def call(self, E, S, fr, n, info):
        nm, a, obj, cls = info['nm'] or '', info['args'], info['obj'], info['cls'] or ''
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        if cls.startswith('std::basic_string<char') and obj is not None and not info.get('ctor') and E.content(S, obj) == self.R:
            i = self.ident(E, S, a[-1]) if a else None
            if nm == 'compare' and len(a) == 3 and a[0] == 0 and i and E.content(S, a[2][1]) is not None:
                ln = a[1]
                if ln == E.size_of(('init', self.kl(i))):
                    return [(S, E.mknot(E.mkcmp(S, '!=', pre(i), 0)))]
            if nm in ('starts_with',) and i: return [(S, E.mkcmp(S, '!=', pre(i), 0))]
            if nm in ('rfind', 'find') and len(a) == 2 and a[1] == 0: pass
            if nm == 'substr' and len(a) == 2 and a[0] == 0:
                for i in self.entries(S, 'map')[0]:
                    if a[1] == E.size_of(('init', self.kl(i))):
                        t = ('app', 'head', i); TAG[t] = 'str'
                        return [(S, E.tmp(S, fr, info['nid'], t))]
        if cls.startswith('std::basic_string<char') and obj is not None and nm in ('begin', 'cbegin', 'end', 'cend') and not n.get('inroot'):
            c = E.content(S, obj)
            i = 'R' if c == self.R else next((j for j in self.entries(S, 'map')[0] if c == ('init', self.kl(j))), None)
            if i:
                t = ('app', 'first' if 'begin' in nm else 'last', i); TAG[t] = 'o'
                return [(S, E.tmp(S, fr, info['nid'], t))]
        if info['sfn'] == 'std::equal' and len(a) == 3:
            x, y, z = [E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v for v in a]
            if isinstance(x, tuple) and x[:2] == ('app', 'first') and x[2] != 'R' and y == ('app', 'last', x[2]) and z == ('app', 'first', 'R'):
                k = ('init', self.kl(x[2]))
                if E.assume(S.copy(), E.mkcmp(S, '<', E.size_of(self.R), E.size_of(k)), True) is None:     # enough to compare with
                    return [(S, E.mkcmp(S, '!=', pre(x[2]), 0))]
        if nm in ('starts_with',) and obj is None and len(a) == 2:
            i = self.ident(E, S, a[1])
            c = E.content(S, a[0][1]) if a[0][0] == 'L' else a[0]
            if i and c == self.R: return [(S, E.mkcmp(S, '!=', pre(i), 0))]
        if nm in ('operator==', 'operator!=') and len(a) == 2:
            c = [E.content(S, x[1]) if isinstance(x, tuple) and x and x[0] == 'L' else x for x in a]
            for x, y in (c, c[::-1]):
                if isinstance(x, tuple) and x[:2] == ('app', 'head') and y == ('init', self.kl(x[2])):
                    t = E.mkcmp(S, '!=', pre(x[2]), 0)
                    return [(S, t if nm == 'operator==' else E.mknot(t))]
                i = next((j for j in self.entries(S, 'map')[0] if y == ('init', self.kl(j))), None)
                if i and x == self.R:
                    s2 = S.copy()
                    S.setint(pre(i), ((1, 1),)); S.setint(eqsize(E, S, self.R, i, self.kl), ((0, 0),))
                    s2.mon[('neq', i)] = 1
                    return [(S, int(nm == 'operator==')), (s2, int(nm == 'operator!='))]
        return Scen.call(self, E, S, fr, n, info)


def pre(i):
    t = ('app', 'isprefix', i); TAG[t] = ('i', 32, False)
    return t


def eqsize(E, S, R, i, kl=key_loc):
    from ..eng import split_key
    return split_key(sub(E.size_of(R), E.size_of(('init', kl(i)))))[1]


def verdict(E, S, R, i, kl=key_loc):
    """1 covers / 0 does not / None undecided, for entry i on this path"""
    k = ('init', kl(i))
    imp = lambda t, w: E.assume(S, t, not w) is None
    p = E.mkcmp(S, '!=', pre(i), 0)
    empty = E.mkcmp(S, '==', E.size_of(k), 0)
    size = E.mkcmp(S, '==', E.size_of(R), E.size_of(k))
    chs = [('app', 'chr', R, E.size_of(k))]
    TAG[chs[0]] = ('i', 8, True)
    slash = E.mkcmp(S, '==', chs[0], 47)
    yes = (imp(p, True) or imp(empty, True)) and (imp(size, True) or imp(slash, True))
    short = E.mkcmp(S, '<', E.size_of(R), E.size_of(k))
    no = imp(p, False) or imp(short, True) or (imp(size, False) or S.mon.get(('neq', i))) and imp(slash, False)
    return 1 if yes else 0 if no else None


def routing(prog, R, tier):
    R.rule("the look-up is interpreted abstractly over n = 0..3 registered identifiers not greater than the resource, leaving open for each whether it is a prefix of the resource and whether it ends at the end of the resource or before a '/': every path that returns an identifier's entry has established that it covers the resource and that every greater one does not; every path that reports no match has established that none does")
    R.assumptions += ["std::map orders identifiers, so a longer covering identifier is greater than a shorter one and every covering identifier is not greater than the resource", "identifiers are analysed for up to 3 entries; the loop treats entries alike"]
    total = 0
    for fn, field in (('pion::plugin_manager::find', 'm_plugin_map'), ('pion::http::server::find_request_handler', 'm_resources')):
        fs = [f for f in prog.by_name.get(fn, []) if 'blocks' in f]
        if not fs: raise AnalysisError("no %s" % fn)
        f = fs[0]
        ps = params(f)
        RS = ('init', ps[0][1]); TAG[RS] = 'str'
        for n in (0, 1, 2, 3):
            H = RH(field, RS)
            E = Engine(prog, H)

            def setup(E, S, fr):
                for i in H.populate(S, 'map', n):
                    v = ('init', ('o', 'VAL', i)); TAG[v] = 'p'
                    S.setint(v, ((1, 1 << 47),))
                    if field == 'm_plugin_map': S.mem[('f', val_loc(i), FIRST)] = v
                    else: S.mem[val_loc(i)] = v
            fr, ex = E.entry(f, setup=setup)
            R.engine(E)
            if not ex: raise AnalysisError("%s has no exit" % fn)
            for kind, s, v in ex:
                if kind not in ('ret', 'throw'): continue
                total += 1
                short = fn.rsplit('::', 1)[1]
                def ob(k, ok, msg): R.ob("%s:%s" % (short, k), ok, where(f), msg, dict(identifiers=n, path=s.path()))
                ob('returns', kind == 'ret', "throws")
                if kind != 'ret': continue
                for e in evs(s):
                    if e[0] == 'bad': ob('iterators', False, e[1])
                if field == 'm_plugin_map':
                    if isinstance(v, tuple) and v and v[0] == 'L': v = E.content(s, v[1])
                    got = v[1][2] if isinstance(v, tuple) and v[0] == 'init' and v[1][:2] == ('o', 'VAL') else 0 if v == 0 else None
                else:
                    h = E.content(s, ps[1][1])
                    t = v if isinstance(v, int) else E.truth_of(s, v)
                    got = 0 if t == 0 else h[1][2] if t == 1 and isinstance(h, tuple) and h[0] == 'init' and h[1][:2] == ('o', 'VAL') else None
                    if t == 0: ob('handler untouched', True, "")
                ob('answer', got is not None, "returns something that is not the entry of a registered identifier")
                if got is None: continue
                vs = {i: verdict(E, s, RS, i) for i in range(1, n + 1)}
                if got:
                    ob('covers', vs[got] == 1, "an identifier is chosen although it need not cover the resource (prefix that ends at the end of the resource or before '/')")
                    ob('most specific', all(vs[j] == 0 for j in vs if j > got), "an identifier is chosen although a longer one may cover the resource")
                else:
                    ob('no match', all(x == 0 for x in vs.values()), "reports no match although a registered identifier may cover the resource")
    R.count('exits', total)
    R.floor('exits examined', total, 20)
