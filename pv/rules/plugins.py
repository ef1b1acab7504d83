"""C03 plug-in library reference counts, C04 plug-in instances and their managers."""
import itertools
from ..load import AnalysisError, strip_targs
from ..eng import Engine, State, add, sub, TAG, lin, base_type, is_ref, split_key
from ..maps import Maps, ent, key_loc, val_loc, FIRST, SECOND
from ..report import where
from .httpmsg import Scen, params, param, evs, names

this = ('o', 'this')
PL = 'pion::plugin::'
DT = PL + 'data_type::'
PD = ('f', this, PL + 'm_plugin_data')


def D(i): return ('o', 'D', i)
def refs(d): return ('f', d, DT + 'm_references')
def hnd(d): return ('f', d, DT + 'm_lib_handle')
def nam(d): return ('f', d, DT + 'm_plugin_name')
def init(l, tag):
    t = ('init', l); TAG[t] = tag
    return t


class PH(Maps, Scen):
    max_states = 3000
    unroll = 0
    opaque = frozenset(['pion::plugin::find_plugin_file', 'pion::plugin::find_file'])

    def is_map(self, obj): return 'map' if obj[0] == 'f' and isinstance(obj[2], str) and obj[2].endswith('m_plugin_map') else None

    def key_eq(self, E, S, a, b):
        d = [self.named(x) for x in (a, b)]
        if d[0] is not None and d[1] is not None: return int(d[0] == d[1])
        return None

    @staticmethod
    def named(t): return t[1][1] if isinstance(t, tuple) and t[0] == 'init' and t[1][0] == 'f' and t[1][2] == DT + 'm_plugin_name' else None

    # one library record that was there before the call
    def known(self, S, d, static, least):
        S.mem[hnd(d)] = 0 if static else init(hnd(d), 'p')
        if not static: S.setint(('init', hnd(d)), ((1, 1 << 47),))
        r = init(refs(d), ('i', 64, False))
        S.setint(r, ((0 if static and not least else max(1, least), 1 << 40),))
        init(nam(d), 'str')
        S.mon['ds'] = S.mon.get('ds', ()) + (d,)

    def new_entry(self, E, S, fr, m, i, n):
        out = []
        for static in (False, True):
            s = S.copy()
            d = D(10 + i)
            self.known(s, d, static, 0)
            s.mem[nam(d)] = s.mem[key_loc(i)]
            s.mem[val_loc(i)] = E.addr(d)
            out.append(s)
        return out

    def target(self, S, E, v):
        if v == 0: return None
        if isinstance(v, tuple) and v[0] == 'addr': return v[1]
        return ('?', v)

    def call(self, E, S, fr, n, info):
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        nm, a, sfn = info['nm'] or '', info['args'], info['sfn']
        if sfn == 'dlopen':
            s2 = S.copy()
            k = S.mon.get('nh', 0)
            h = init(('o', 'H', k), 'p')
            s2.setint(h, ((1, 1 << 47),))
            s2.mon['nh'] = k + 1
            return [(S, 0), (s2, h)]
        if sfn == 'dlsym':
            s2 = S.copy()
            nmv = E.content(S, a[1][1]) if isinstance(a[1], tuple) and a[1][0] == 'L' else a[1]
            f = ('app', 'symbol', a[0], nmv); TAG[f] = 'p'
            s2.setint(f, ((1, 1 << 47),))
            return [(S, 0), (s2, f)]
        if sfn == 'dlclose':
            self.ev(S, 'dlclose', a[0])
            return [(S, 0)]
        if sfn == 'dlerror':
            return [(S, 0), (S.copy(), E.sym(fr, info['nid'], 'p', 'dlerror'))]
        if sfn.startswith('boost::filesystem::') and info['obj'] is None and nm in ('basename', 'absolute', 'complete', 'system_complete'):
            t = ('app', nm) + E.content_args(S, a); TAG[t] = 'o'
            return [(S, E.tmp(S, fr, info['nid'], t))]
        return Scen.call(self, E, S, fr, n, info)

    def new(self, E, S, fr, v, n):
        if 'data_type' in n.get('type', ''):
            d = E.deref(v)
            S.mon['ds'] = S.mon.get('ds', ()) + (d,)
            S.mon[('fresh', d)] = 1

    def delete(self, E, S, fr, p, n):
        d = self.target(S, E, p)
        if d is None: return
        if S.mon.get(('deleted', d)): self.bad(E, S, fr, n, 'deletes the same record twice')
        S.mon[('deleted', d)] = 1

    def deref(self, E, S, fr, p, n, mode):
        d = self.target(S, E, p)
        if d is not None and S.mon.get(('deleted', d)): self.bad(E, S, fr, n, 'uses a library record after it was deleted')
        if d is not None and S.mon.get(('stale', d)): self.bad(E, S, fr, n, 'uses a library record it found in an earlier critical section without holding a reference')

    def lock(self, E, S, fr, op, m, n):
        if op != 'lock': return
        if not S.mon.get('locked_once'):
            S.mon['locked_once'] = 1; return
        # other threads may have run: only counted references keep a record
        ents, opn, absent = self.entries(S, 'map')
        keep = []
        for i in ents:
            d = self.target(S, E, S.mem.get(val_loc(i)))
            if d is None or d[0] == '?': continue
            if self.owned(S, d): keep.append(i)
            elif not S.mon.get(('fresh', d)): S.mon[('stale', d)] = 1
        self.put(S, 'map', keep, True, ())

    def owned(self, S, d):
        r0 = 0 if S.mon.get(('fresh', d)) else ('init', refs(d))
        r1 = S.mem.get(refs(d), r0)
        return sub(r1, r0) != 0 and isinstance(sub(r1, r0), int) and sub(r1, r0) > 0 or S.mon.get(('base', d), 0) + (sub(r1, r0) if isinstance(sub(r1, r0), int) else 0) > 0


def eqs(v, d): return v == ('addr', d)


def check(E, H, kind, s, v, pre, others, R, key, w, want=None):
    """the reference-count law at one exit"""
    ob = lambda k, ok, msg, extra=None: R.ob(key + ':' + k, ok, w, msg, extra or s.path())
    for e in evs(s):
        if e[0] == 'bad': ob('memory', False, e[1])
    fin = E.content(s, PD) if PD in s.mem or pre is not None else None
    ob('exit lock', kind != 'ret' or not s.locks, "returns with the plug-in mutex held")
    closed = [e[1] for e in evs(s) if e[0] == 'dlclose']
    ents, opn, absent = H.entries(s, 'map')
    inmap = {}
    for i in ents:
        d = H.target(s, E, s.mem.get(val_loc(i)))
        inmap.setdefault(d, []).append(i)
    ds = list(dict.fromkeys(s.mon.get('ds', ())))
    tgt = H.target(s, E, fin)
    ob('pointer', tgt is None or tgt in ds, "leaves the plug-in object pointing at something that is not a library record")
    used = set()
    for d in ds:
        fresh = s.mon.get(('fresh', d))
        r0 = 0 if fresh else init(refs(d), ('i', 64, False))
        r1 = E.read(s, refs(d), ('i', 64, False))
        delta = sub(r1, r0)
        pd = int(tgt == d) - int(pre == d)
        h = E.read(s, hnd(d), 'p')
        dele = s.mon.get(('deleted', d))
        hz = h == 0
        what = 'new' if fresh else ('static' if hz else 'dynamic')
        if dele:
            rg = s.rng(r1) if not isinstance(r1, int) else ((r1, r1),)
            ob(what + ' delete', not hz, "deletes the record of a statically linked plug-in")
            ob(what + ' delete early', rg == ((0, 0),) and delta == pd or fresh and tgt != d, "deletes a library record that still has users")
            ob(what + ' erase', not inmap.get(d), "deletes a library record but leaves it in the map")
            ob(what + ' close', closed.count(h) == 1, "deletes the library record without closing the library exactly once")
            ob(what + ' dangling', tgt != d, "keeps pointing at the deleted record")
            used.add(h)
            continue
        ob(what + ' count', delta == pd, "changes the reference count of a library by %s while the object's own references change by %s" % (delta, pd))
        if not hz and isinstance(delta, int):
            if not fresh:
                rg = s.rng(r1) if not isinstance(r1, int) else ((r1, r1),)
                ob('last reference', bool(rg) and rg[0][0] >= 1 or delta >= 0, "drops the last reference to a dynamic library without releasing it")
            ob(what + ' closed', closed.count(h) == 0, "closes a library that is still in use")
        if not fresh:
            ob(what + ' kept in map', not any(s.mon.get(('erased', i)) for i in range(1, 40) if H.target(s, E, s.mem.get(val_loc(i))) == d), "removes a live library from the map")
        else:
            es = inmap.get(d, [])
            ob('new in map', len(es) == 1 and E.content(s, key_loc(es[0])) == E.content(s, nam(d)), "creates a library record that is not in the map under its own name")
            for fn in ('m_create_func', 'm_destroy_func'):
                x = E.read(s, ('f', d, DT + fn), 'p')
                if not hz:
                    ok = isinstance(x, tuple) and x[:2] == ('app', 'symbol') and x[2] == h
                    ob('new symbols', ok, "stores a library record whose %s is not a symbol of that library" % fn)
                    if ok:
                        want_ = 'pion_create_' if 'create' in fn else 'pion_destroy_'
                        t = repr(x[3])
                        other = 'pion_destroy_' if 'create' in fn else 'pion_create_'
                        sw = ('PION_PLUGIN_DESTROY' if 'create' in fn else 'PION_PLUGIN_CREATE')
                        ob('symbol names', sw not in t and other not in t, "%s is looked up under the other symbol's name" % fn)
            used.add(h)
    for k in range(s.mon.get('nh', 0)):
        h = ('init', ('o', 'H', k))
        live = [d for d in ds if s.mon.get(('fresh', d)) and not s.mon.get(('deleted', d)) and E.read(s, hnd(d), 'p') == h]
        ob('handle', closed.count(h) + len(live) == 1, "an opened library is %s on this path" % ('leaked' if closed.count(h) + len(live) == 0 else 'released twice'))
    for h in set(closed):
        ob('close null', h != 0, "closes a NULL library handle")
    return tgt


def refcounts(prog, R, tier):
    R.rule("every path (normal and exceptional) through each operation of plugin is interpreted abstractly from every combination of what the object, its argument and the library map may hold; at each exit, for every library record: change of the count = change of the object's own references, a dynamic record whose count reaches zero is closed once, erased and deleted, a static one never is, nothing is used after deletion or after the mutex was released without a counted reference, and every opened handle is stored in exactly one mapped record or closed")
    R.assumptions += ["dlopen/dlsym may fail at any call", "map keys are unique; a dynamic record is in the map under its own name while it has users", "std::bad_alloc is not modelled"]
    pre_kinds = [None, ('dyn', 1), ('st', 1)]
    fns = []
    for nm, arg in (('release_data', None), ('~plugin', None), ('close', None), ('open', 's'), ('open_file', 's'), ('grab_data', 'p'), ('operator=', 'p'), ('plugin', 'p'), ('add_static_entry_point', 'x')):
        for f in prog.by_name.get(PL + nm, []):
            if nm == 'plugin' and len(f['params']) != 1: continue
            if 'blocks' not in f: continue
            fns.append((f, nm, arg))
    for f in prog.by_name.get('pion::plugin_ptr::operator=', []) + prog.by_name.get('pion::plugin_ptr::plugin_ptr', []) + prog.by_name.get('pion::plugin_ptr::~plugin_ptr', []):
        if 'blocks' not in f: continue
        nm = f['sfn'].rsplit('::', 1)[1]
        if nm == 'plugin_ptr' and len(f['params']) != 1: continue
        fns.append((f, {'plugin_ptr': 'plugin'}.get(nm, nm), 'p' if f['params'] else None))
    R.floor('plug-in operations', len({nm for f, nm, arg in fns}), 8)
    for f, nm, arg in fns:
        R.count('operations')
        pres = [None] if nm in ('plugin', 'add_static_entry_point') else pre_kinds
        for pre in pres:
            qs = [('none',)]
            if arg == 'p': qs = [('null',), ('other', 'dyn'), ('other', 'st')] + ([('same',)] if pre else []) + ([('self',)] if nm not in ('plugin',) else [])
            for q in qs:
                H = PH(calls={'get_plugin_config': lambda E, S, info: [(S, ('L', ('o', 'cfg')))] })
                E = Engine(prog, H)
                base = []

                def setup(E, S, fr):
                    S.mem[PD] = 0
                    ents = []
                    if nm == 'plugin':
                        S.mem[PD] = init(PD, 'p')
                    if nm == 'add_static_entry_point': S.mem.pop(PD)

                    def mkd(d, kind, least):
                        H.known(S, d, kind == 'st', least)
                        S.mem[nam(d)] = init(nam(d), 'str')
                        i = len(ents) + 1
                        S.mem[key_loc(i)] = S.mem[nam(d)]; S.mem[val_loc(i)] = E.addr(d)
                        ents.append(i)
                        S.mon[('base', d)] = least
                        base.append(d)
                    if pre:
                        mkd(D(0), pre[0], 2 if q[0] == 'same' else 1)
                        S.mem[PD] = E.addr(D(0))
                    if arg == 'p':
                        pv = f['params'][0]
                        pl = ('o', 'arg', 'p')
                        if q[0] == 'self': S.bind[(fr.id, pv)] = this
                        else:
                            S.bind[(fr.id, pv)] = pl
                            S.setint(split_key(sub(E.addr(pl), E.addr(this)))[1], ((-(1 << 60), -1), (1, 1 << 60)))
                            x = 0
                            if q[0] == 'other':
                                mkd(D(1), q[1], 1); x = E.addr(D(1))
                            if q[0] == 'same': x = E.addr(D(0))
                            S.mem[('f', pl, PL + 'm_plugin_data')] = x
                    H.put(S, 'map', ents, True, ())
                    S.mon['nextent'] = len(ents) + 1
                fr, ex = E.entry(f, this=this if f.get('cls') and not f.get('static') else this, setup=setup)
                R.engine(E)
                if not ex: raise AnalysisError("no exit of %s" % f['sfn'])
                for kind, s, v in ex:
                    if kind not in ('ret', 'throw'): continue
                    R.count('exits')
                    k0 = "%s:%s" % (f['sfn'].split('::')[-1] if 'plugin_ptr' not in f['sfn'] else f['sfn'][6:], kind)
                    if nm == 'add_static_entry_point': s.mem.setdefault(PD, 0)
                    tgt = check(E, H, kind, s, v, D(0) if pre else None, q, R, k0, where(f))
                    ob = lambda k, ok, msg: R.ob(k0 + ':' + k, ok, where(f), msg, s.path())
                    if kind == 'ret':
                        if nm in ('release_data', 'close'): ob('result', tgt is None, "leaves the object attached to a library")
                        if nm in ('open', 'open_file'): ob('result', tgt is not None, "returns without a library")
                        if nm in ('grab_data', 'operator=', 'plugin'):
                            w = {'null': None, 'other': D(1), 'same': D(0), 'self': D(0) if pre else None}[q[0]]
                            ob('result', tgt == w, "does not end up referring to the library of its argument (%s)" % (q,))
                        if nm in ('open', 'open_file') and tgt is not None and tgt[0] != '?':
                            keys = []
                            for i in H.entries(s, 'map')[0]:
                                if H.target(s, E, s.mem.get(val_loc(i))) == tgt: keys += [E.content(s, key_loc(i))] + list(s.mon.get(('alias', i), ()))
                            ob('name', bool(keys), "refers to a library that is not in the map")
                    if nm == 'add_static_entry_point':
                        fr_ = [d for d in s.mon.get('ds', ()) if s.mon.get(('fresh', d))]
                        for d in fr_:
                            g = {fn: E.read(s, ('f', d, DT + fn), 'p') for fn in ('m_create_func', 'm_destroy_func')}
                            ps = [l for t, l in params(f) if t.rstrip().endswith('*')]
                            ob('functions', len(ps) == 2 and g['m_create_func'] == ('init', ps[0]) and g['m_destroy_func'] == ('init', ps[1]), "stores its entry points in the wrong members")
                            ob('static', E.read(s, hnd(d), 'p') == 0, "gives a statically linked plug-in a library handle")
                        if kind == 'ret':
                            ids = H.entries(s, 'map')[0]
                            ob('registered', len(ids) == 1, "does not register the entry point (or replaces an existing one)")


# ---- C04 ------------------------------------------------------------------------------
PM = 'pion::plugin_manager::'
LIBCLS = ('pion::plugin_ptr', 'pion::plugin')


class IH(Maps, Scen):
    """plug-in objects and library references as abstract tokens; plugin_ptr is a handle whose content is its library"""
    max_states = 3000
    unroll = 0

    def __init__(self, selfmap=False, **kw):
        Scen.__init__(self, **kw)
        self.selfmap = selfmap

    def is_map(self, obj):
        if obj == this and self.selfmap: return 'map'
        return 'map' if obj[0] == 'f' and isinstance(obj[2], str) and obj[2].endswith('m_plugin_map') else None

    def lib(self, E, S, loc):
        v = E.content(S, loc)
        return v if isinstance(v, int) or isinstance(v, tuple) and v[0] == 'init' and v[1][:2] == ('o', 'LIB') else v

    def call(self, E, S, fr, n, info):
        nm, cls, a, obj = info['nm'] or '', strip_targs(info['cls'] or ''), info['args'], info['obj']
        if cls in LIBCLS and obj is not None:
            if info.get('ctor'):
                if not a: S.mem[obj] = 0
                elif a[0][0] == 'L':
                    E.kill(S, obj); S.mem[obj] = E.content(S, a[0][1])
                return [(S, None)]
            c = E.content(S, obj)
            if nm == 'operator=' and a:
                E.kill(S, obj); S.mem[obj] = E.content(S, a[0][1])
                return [(S, ('L', obj))]
            if nm == 'is_open': return [(S, E.mkcmp(S, '!=', c, 0))]
            if nm == 'close' or nm == 'release_data':
                S.mem[obj] = 0
                return [(S, 0)]
            if nm in ('open', 'open_file'):
                s2 = S.copy(); s2.mem[obj] = 0
                k = S.mon.get('nlib', 0)
                S.mon['nlib'] = k + 1
                l = init(('o', 'LIB', 'new', k), 'p')
                S.setint(l, ((1, 1 << 47),))
                S.mem[obj] = l
                self.ev(S, 'open', E.content(S, a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'L' else a[0])
                return [(S, 0), ('throw', s2, 'pion::error::plugin_not_found')]
            if nm == 'create':
                if c == 0: return [('throw', S, 'pion::error::plugin_undefined')]
                s2 = S.copy()
                k = S.mon.get('ninst', 0)
                S.mon['ninst'] = k + 1
                t = init(('o', 'INST', 'new', k), 'p')
                S.setint(t, ((1, 1 << 47),))
                S.mon[('of', t)] = c
                return [(S, t), ('throw', s2, 'any')]
            if nm == 'destroy':
                if c == 0: return [('throw', S, 'pion::error::plugin_undefined')]
                self.ev(S, 'destroy', a[0], c)
                return [(S, 0)]
            if nm == 'get_plugin_name': return None
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        if (info['cls'] or '').startswith('boost::function') and nm == 'operator()':
            self.ev(S, 'run', a[0] if a else None)
            k = len(evs(S))
            t = init(('o', 'STAT', k), ('i', 64, False))
            return [(S, t)]
        if info.get('fexpr') is not None and not info.get('sfn'):
            return None
        return Scen.call(self, E, S, fr, n, info)

    def delete(self, E, S, fr, p, n):
        if p != 0: self.ev(S, 'delete', p)

    def dtor(self, E, S, fr, loc, typ, el):
        if strip_targs(typ) in LIBCLS:
            E.kill(S, loc); S.mem.pop(loc, None)
            return [S]
        return None


def inst(i):
    t = init(('o', 'INST', i), 'p')
    return t


def fate(s, p):
    """how an instance was disposed of on this path"""
    return [e for e in evs(s) if e[0] in ('destroy', 'delete') and e[1] == p]


def instances(prog, R, tier):
    R.rule("every path through plugin_manager and plugin_instance_ptr is interpreted abstractly with plug-in objects and library references as tokens: at each exit every object is either still managed or has been disposed of exactly once -- through the destroy function of the library that created it, while that library reference is still held, or by delete when no library is attached -- and the call returns / reports what its contract says")
    R.assumptions += ["the manager holds at most 3 entries in the analysed states; entries are treated alike", "plugin_ptr itself obeys C03", "create/open may throw; destroy functions do not"]
    st = dict(n=0)

    def mgr(name, n, opens, key='K', selfmap=False, cls='pion::plugin_manager::'):
        fs = [f for f in prog.by_name.get(cls + name, []) if 'blocks' in f]
        if not fs: raise AnalysisError("no %s%s" % (cls, name))
        for f in fs:
            H = IH(selfmap=selfmap)
            E = Engine(prog, H)

            def setup(E, S, fr):
                ids = H.populate(S, 'map', n)
                for i in ids:
                    S.mem[('f', val_loc(i), FIRST)] = inst(i)
                    S.setint(inst(i), ((1, 1 << 47),))
                    l = init(('o', 'LIB', i), 'p'); S.setint(l, ((1, 1 << 47),))
                    S.mem[('f', val_loc(i), SECOND)] = l if opens[i - 1] else 0
                    S.mon[('of', inst(i))] = l if opens[i - 1] else 0
                    S.mon[('is', i)] = 1
                for t, l in params(f):
                    if t.rstrip().endswith('*'): S.setint(('init', l), ((1, 1 << 47),))
            fr, ex = E.entry(f, setup=setup)
            R.engine(E)
            if not ex: raise AnalysisError("%s has no exit" % f['sfn'])
            for kind, s, v in ex:
                if kind not in ('ret', 'throw'): continue
                st['n'] += 1
                if isinstance(v, tuple) and v and v[0] == 'L': v = E.content(s, v[1])
                yield f, E, H, kind, s, v

    def entries(E, H, s):
        out = {}
        for i in H.entries(s, 'map')[0]:
            p = E.read(s, ('f', val_loc(i), FIRST), 'p')
            out.setdefault(p, []).append((i, E.content(s, ('f', val_loc(i), SECOND))))
        return out

    def common(f, E, H, kind, s, n, name, escape=()):
        """ownership of every object that was managed before or created meanwhile"""
        def ob(k, ok, msg): R.ob("%s:%s" % (name, k), ok, where(f), msg, s.path())
        for e in evs(s):
            if e[0] == 'bad': ob('iterators', False, e[1])
        held = entries(E, H, s)
        objs = [inst(i) for i in range(1, n + 1)] + [init(('o', 'INST', 'new', k), 'p') for k in range(s.mon.get('ninst', 0))]
        for p in objs:
            fa = fate(s, p)
            l = s.mon.get(('of', p), 0)
            h = held.get(p, [])
            ob('once', len(fa) + len(h) + (1 if p in escape else 0) == 1, "a plug-in object is %s" % (
                'leaked' if not fa and not h else 'still managed although it was destroyed' if fa and h else 'destroyed twice' if len(fa) > 1 else 'managed twice or managed and handed out as owned'))
            for e in fa:
                if l == 0: ob('delete', e[0] == 'delete', "an object without a library is not deleted")
                else: ob('destroy', e[0] == 'destroy' and e[2] == l, "an object created by a library is %s" % ('deleted directly' if e[0] == 'delete' else "destroyed through another library"))
            for i, c in h:
                ob('library kept', c == l, "a managed object loses the reference to the library that created it")
        return held, ob

    combos = lambda n: list(itertools.product((False, True), repeat=n))
    # -- map_type::clear, ~map_type, clear
    for name, cls, sm in (('clear', PM + 'map_type::', True), ('~map_type', PM + 'map_type::', True), ('clear', PM, False)):
        for n in (0, 1, 2, 3):
            for op in combos(n):
                for f, E, H, kind, s, v in mgr(name, n, op, selfmap=sm, cls=cls):
                    held, ob = common(f, E, H, kind, s, n, name)
                    ob('returns', kind == 'ret', "throws")
                    ob('empty', not held, "leaves objects behind")
    # -- remove / replace / clone / get / get_lib_ptr
    for n in (1, 2):
        for op in combos(n):
            for f, E, H, kind, s, v in mgr('remove', n, op):
                held, ob = common(f, E, H, kind, s, n, 'remove')
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                if hit: ob('removed', kind == 'ret' and inst(hit[0]) not in held and len(held) == n - 1, "does not remove exactly the named object")
                else: ob('absent', kind == 'throw' and 'plugin_not_found' in str(v) and len(held) == n, "an unknown identifier is not reported as plugin_not_found")
            for f, E, H, kind, s, v in mgr('replace', n, op):
                new = [('init', l) for t, l in params(f) if t.rstrip().endswith('*')][0]
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                def ob(k, ok, msg): R.ob("replace:%s" % k, ok, where(f), msg, s.path())
                held = entries(E, H, s)
                for e in evs(s):
                    if e[0] == 'bad': ob('iterators', False, e[1])
                for i in range(1, n + 1):
                    fa = fate(s, inst(i))
                    if i in hit:
                        ob('old object', len(fa) == 1 and (fa[0][0] == 'destroy' and fa[0][2] == s.mon[('of', inst(i))] if op[i - 1] else fa[0][0] == 'delete'), "the replaced object is not disposed of exactly once through its library")
                        ob('new object', kind == 'ret' and [x[0] for x in held.get(new, [])] == [i] and inst(i) not in held, "the new object does not take the place of the old one")
                    else: ob('others', not fa and inst(i) in held, "an object that was not named is touched")
                ob('new kept', not fate(s, new), "the new object is destroyed")
                if not hit: ob('absent', kind == 'throw' and 'plugin_not_found' in str(v), "an unknown identifier is not reported as plugin_not_found")
            for f, E, H, kind, s, v in mgr('clone', n, op):
                held, ob = common(f, E, H, kind, s, n, 'clone', escape=[v] if kind == 'ret' else [])
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                if not hit: ob('absent', kind == 'throw' and 'plugin_not_found' in str(v), "an unknown identifier is not reported as plugin_not_found")
                elif kind == 'ret': ob('same library', s.mon.get(('of', v)) == s.mon.get(('of', inst(hit[0]))) and op[hit[0] - 1], "the clone does not come from the library of the named object")
            for f, E, H, kind, s, v in mgr('get', n, op):
                held, ob = common(f, E, H, kind, s, n, 'get')
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                ob('result', kind == 'ret' and v == (inst(hit[0]) if hit else 0), "does not return the named object, or NULL when there is none")
            for f, E, H, kind, s, v in mgr('get_lib_ptr', n, op):
                held, ob = common(f, E, H, kind, s, n, 'get_lib_ptr')
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                ob('result', kind == 'ret' and v == (s.mon[('of', inst(hit[0]))] if hit else 0), "does not return the library of the named object")
    # -- add / load
    for n in (0, 1, 2):
        for op in combos(n):
            for f, E, H, kind, s, v in mgr('add', n, op):
                held, ob = common(f, E, H, kind, s, n, 'add')
                new = [('init', l) for t, l in params(f) if t.rstrip().endswith('*')][0]
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                ob('added', (len(held.get(new, [])) == 1 and held[new][0][1] == 0) if not hit else new not in held or True, "does not take over the new object without a library")
                ob('kept', not fate(s, new), "destroys the object it was given")
            for f, E, H, kind, s, v in mgr('load', n, op):
                held, ob = common(f, E, H, kind, s, n, 'load')
                hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                if hit: ob('duplicate', kind == 'throw' and 'duplicate_plugin' in str(v), "an identifier in use is not reported as duplicate_plugin")
                if kind == 'ret':
                    ob('result', v in held and isinstance(v, tuple) and v[1][:3] == ('o', 'INST', 'new'), "does not return the object it added")
                    ps = params(f)
                    if v in held:
                        i = held[v][0][0]
                        ob('identifier', E.content(s, key_loc(i)) == ('init', ps[0][1]), "adds the object under something other than the identifier")
                    op_ = [e[1] for e in evs(s) if e[0] == 'open']
                    ob('library', op_ == [('init', ps[1][1])], "does not open the requested plug-in type")
    # another thread adds the same identifier while the library is being opened
    for f in [f for f in prog.by_name.get(PM + 'load', []) if 'blocks' in f]:
        class RH(IH):
            def lock(self, E, S, fr, op, m, n):
                if op != 'lock': return
                k = S.mon.get('nlock', 0)
                S.mon['nlock'] = k + 1
                if k == 0: return
                if S.mon.get('raced'): return
                S.mon['raced'] = 1
                i = S.mon.get('nextent', 1)
                S.mon['nextent'] = i + 1
                ents, opn, ab = self.entries(S, 'map')
                S.mem[key_loc(i)] = ('init', params(f)[0][1])
                S.mem[('f', val_loc(i), FIRST)] = init(('o', 'INST', 'other'), 'p')
                S.mem[('f', val_loc(i), SECOND)] = 0
                self.put(S, 'map', ents + (i,), opn, ())
        H = RH()
        E = Engine(prog, H)

        def setup(E, S, fr): H.populate(S, 'map', 0)
        fr, ex = E.entry(f, setup=setup)
        for kind, s, v in ex:
            if kind not in ('ret', 'throw') or not s.mon.get('raced'): continue
            st['n'] += 1
            held, ob = common(f, E, H, kind, s, 0, 'load race')
            ob('reported', kind == 'throw', "an identifier added meanwhile by another thread is not reported")
            ob('other object', init(('o', 'INST', 'other'), 'p') in held and not fate(s, init(('o', 'INST', 'other'), 'p')), "the object added by another thread is destroyed or replaced")
    # -- run / get_statistic
    for n in (0, 1, 2, 3):
        for name in ('run', 'get_statistic'):
            for f, E, H, kind, s, v in mgr(name, n, (False,) * n):
                held, ob = common(f, E, H, kind, s, n, name)
                called = [e[1] for e in evs(s) if e[0] == 'run']
                if len(f['params']) == 1:
                    ob('every object once', sorted(map(repr, called)) == sorted(repr(inst(i)) for i in range(1, n + 1)), "does not call the function once for every object")
                    if name == 'get_statistic':
                        t = 0
                        for k, e in enumerate(evs(s)):
                            if e[0] == 'run': t = add(t, init(('o', 'STAT', k + 1), ('i', 64, False)))
                        while isinstance(v, tuple) and v[0] in ('wrap', 'cast'): v = v[3]
                        ob('sum', v == t or repr(v).count("'STAT'") == n, "is not the sum over all objects")
                else:
                    hit = [i for i in range(1, n + 1) if s.mon.get(('alias', i))]
                    ob('named object', called == [inst(hit[0])] and kind == 'ret' if hit else not called and kind == 'throw' and 'plugin_not_found' in str(v), "does not call the function for exactly the named object")
    # -- plugin_instance_ptr
    II = 'pion::plugin_instance_ptr::'
    IP, LP = ('f', this, II + 'm_instance_ptr'), ('f', this, II + 'm_plugin_ptr')
    for name in ('reset', '~plugin_instance_ptr', 'create', 'empty', 'get', 'operator*', 'operator->', 'plugin_instance_ptr'):
        fs = [f for f in prog.by_name.get(II + name, []) if 'blocks' in f]
        if not fs: raise AnalysisError("no %s" % (II + name))
        for f in fs:
            fl = {n['fq'] for n in f['nodes'] if n['k'] == 'mem'}
            for pre in ((0, 0), (0, 1), (1, 1)):
                if name == 'plugin_instance_ptr' and (pre != (0, 0) or f['params']): continue
                H = IH()
                E = Engine(prog, H)
                cl = strip_targs(f['cls'])
                fq = {strip_targs(x['fq']): x['fq'] for r in prog.records.values() for x in r['fields'] if r['nm' if 'nm' in r else 'name'] == f['cls']} if False else {}
                def loc(x):
                    for r in prog.records.values():
                        for y in r['fields']:
                            if strip_targs(y['fq']) == II + x and y['fq'].rsplit('::', 1)[0] == f['cls']: return ('f', this, y['fq'])
                    return ('f', this, II + x)
                ip, lp = loc('m_instance_ptr'), loc('m_plugin_ptr')

                def setup(E, S, fr):
                    l = init(('o', 'LIB', 1), 'p'); S.setint(l, ((1, 1 << 47),)); S.setint(inst(1), ((1, 1 << 47),))
                    S.mem[lp] = l if pre[1] else 0
                    S.mem[ip] = inst(1) if pre[0] else 0
                    if name == 'plugin_instance_ptr': S.mem[ip] = E.sym(fr, 'u', 'p', 'uninit')
                    S.mon[('of', inst(1))] = l
                fr, ex = E.entry(f, setup=setup)
                R.engine(E)
                for kind, s, v in ex:
                    if kind not in ('ret', 'throw'): continue
                    if pre[0] == 0 and name in ('operator*', 'operator->'): continue
                    st['n'] += 1
                    def ob(k, ok, msg): R.ob("plugin_instance_ptr::%s:%s" % (name, k), ok, where(f), msg, s.path())
                    p = E.read(s, ip, 'p')
                    lib = E.content(s, lp)
                    objs = ([inst(1)] if pre[0] else []) + [init(('o', 'INST', 'new', k), 'p') for k in range(s.mon.get('ninst', 0))]
                    for o in objs:
                        fa = fate(s, o)
                        ob('once', len(fa) + (p == o) == 1, "a plug-in object is %s" % ('leaked' if not fa else 'destroyed and still referred to, or destroyed twice'))
                        for e in fa: ob('destroy', e[0] == 'destroy' and e[2] == s.mon[('of', o)], "a plug-in object is not destroyed through the library that created it")
                        if p == o: ob('library', lib == s.mon[('of', o)], "the library of the live object was replaced or released")
                    ob('pointer', p == 0 or p in objs, "leaves the instance pointer uninitialised")
                    if name in ('reset', '~plugin_instance_ptr'): ob('released', p == 0 and kind == 'ret', "keeps the object")
                    if name == 'create' and kind == 'ret': ob('created', isinstance(p, tuple) and p[1][:3] == ('o', 'INST', 'new'), "does not hold a new object")
                    if name == 'empty': ob('result', E.truth_of(s, v) == int(not pre[0]) if not isinstance(v, int) else v == int(not pre[0]), "wrong answer")
                    if name in ('get',): ob('result', v == (inst(1) if pre[0] else 0), "wrong object")
    # -- plugin_ptr::create / destroy
    for name in ('create', 'destroy'):
        for f in [f for f in prog.by_name.get('pion::plugin_ptr::' + name, []) if 'blocks' in f]:
            CF = init(('f', D(0), DT + 'm_create_func'), 'p'); DF = init(('f', D(0), DT + 'm_destroy_func'), 'p')

            class FH(Scen):
                def call(self, E, S, fr, n, info):
                    if info.get('fexpr') is not None:
                        self.ev(S, 'call', info['fexpr'], *info['args'])
                        return [(S, init(('o', 'RES'), 'p'))]
                    return Scen.call(self, E, S, fr, n, info)
            for pre in (False, True):
                H = FH()
                E = Engine(prog, H)

                def setup(E, S, fr): S.mem[PD] = E.addr(D(0)) if pre else 0
                fr, ex = E.entry(f, setup=setup)
                R.engine(E)
                for kind, s, v in ex:
                    if kind not in ('ret', 'throw'): continue
                    st['n'] += 1
                    def ob(k, ok, msg): R.ob("plugin_ptr::%s:%s" % (name, k), ok, where(f), msg, s.path())
                    want = CF if name == 'create' else DF
                    cs = [e[1:] for e in evs(s) if e[0] == 'call']
                    cs = [tuple(E.content(s, x[1]) if isinstance(x, tuple) and x and x[0] == 'L' else x for x in c) for c in cs]
                    if kind == 'throw': ob('undefined', 'plugin_undefined' in str(v) and not cs and (not pre or s.rng(want) == ((0, 0),)), "throws although the library has the function")
                    else:
                        ok = pre and len(cs) == 1 and repr(want) in repr(cs[0][0]) and s.rng(want) and s.rng(want)[0][0] > 0
                        if name == 'destroy': ok = ok and cs[0][1] == ('init', params(f)[0][1])
                        ob('function', ok, "does not call the library's %s function exactly once%s" % (name, '' if name == 'create' else ' with the object'))
                        if name == 'create': ob('result', v == ('init', ('o', 'RES')), "does not return the created object")
    R.count('exits', st['n'])
    R.floor('exits examined', st['n'], 150)
