"""Model of ordered associative containers with abstract keys.

A container holds finitely many named entries with key terms; an `open` container may hold
further entries that look-ups discover (look-up of an unknown key splits into absent /
present).  Iterators are small integers: 0 is end(), i > 0 is entry i.  Element i lives at
('o', 'ent', i): key at .first, mapped value at .second."""
from .eng import TAG, base_type
from .load import strip_targs
from . import models

KINDS = ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap', 'std::unordered_multimap', 'std::__cxx11::list')
FIRST, SECOND = 'std::pair::first', 'std::pair::second'


def ent(i): return ('o', 'ent', i)
def key_loc(i): return ('f', ent(i), FIRST)
def val_loc(i): return ('f', ent(i), SECOND)


class Maps:
    """mix-in for Hooks: is_map(obj) names the containers (by location -> label or None)"""
    sets = False
    vecs = frozenset()                                  # labels of the containers that are sequences
    multis = frozenset()                                # labels of the containers that may hold a key more than once (keys known)

    def is_map(self, obj): return None
    def key_eq(self, E, S, a, b): return None          # 1 / 0 / None: unknown
    def new_entry(self, E, S, fr, m, i, n): pass        # an entry that was there all along is discovered
    def inserted(self, E, S, fr, m, i, n): pass
    def erased(self, E, S, fr, m, i, n): pass

    # -- state
    @staticmethod
    def entries(S, m): return S.mon.get(('map', m), ((), True, frozenset()))

    @staticmethod
    def put(S, m, ents, opn, absent): S.mon[('map', m)] = (tuple(ents), opn, frozenset(absent))

    def populate(self, S, m, n, opn=False, first=1):
        """n entries with unknown distinct keys"""
        ids = tuple(range(first, first + n))
        for i in ids:
            k = ('init', key_loc(i)); TAG[k] = 'str'
            S.mem[key_loc(i)] = k
        self.put(S, m, ids, opn, ())
        S.mon['nextent'] = first + n
        return ids

    def look(self, E, S, fr, m, k, n):
        """[(state, id or 0)]"""
        ents, opn, absent = self.entries(S, m)
        if k in absent: return [(S, 0)]
        out, cand = [], []
        for i in ents:
            ki = E.content(S, key_loc(i)) if not self.sets else E.content(S, ent(i))
            r = 1 if ki == k or k in S.mon.get(('alias', i), ()) else self.key_eq(E, S, ki, k)
            if r == 1: return [(S, i)]
            if r is None: cand.append(i)
        for i in cand:
            s2 = S.copy()
            s2.mon[('alias', i)] = s2.mon.get(('alias', i), ()) + (k,)
            out.append((s2, i))
        if opn:
            s2 = S.copy()
            i = s2.mon.get('nextent', 1)
            s2.mon['nextent'] = i + 1
            if not self.sets: s2.mem[key_loc(i)] = k
            else: s2.mem[ent(i)] = k
            self.put(s2, m, ents + (i,), opn, absent)
            r = self.new_entry(E, s2, fr, m, i, n)
            for s3 in (r if r is not None else [s2]): out.append((s3, i))
        s2 = S.copy()
        self.put(s2, m, ents, opn, absent | {k})
        out.append((s2, 0))
        return out

    def drop(self, E, S, fr, m, i, n):
        ents, opn, absent = self.entries(S, m)
        k = E.content(S, ent(i)) if self.sets else E.content(S, key_loc(i))
        self.put(S, m, [x for x in ents if x != i], opn, absent | {k} if m not in self.multis else ())
        S.mon[('erased', i)] = 1
        self.erased(E, S, fr, m, i, n)

    def of_iter(self, S, i):
        for k, v in S.mon.items():
            if isinstance(k, tuple) and k[0] == 'map' and i in v[0]: return k[1]
        return None

    def step(self, S, i, d, m=None):
        m = self.of_iter(S, i) if i else m
        if m is None:
            ms = [k[1] for k in S.mon if isinstance(k, tuple) and k[0] == 'map']
            if len(ms) != 1: return None
            m = ms[0]
        ents = list(self.entries(S, m)[0])
        if d > 0:
            j = ents.index(i) + 1
            return ents[j] if j < len(ents) else 0
        j = ents.index(i) if i else len(ents)
        return ents[j - 1] if j > 0 else None

    # -- sequences: element i lives at ent(i)
    def fill(self, S, m, n):
        i0 = S.mon.get('nextent', 1)
        ids = tuple(range(i0, i0 + n))
        self.put(S, m, ids, False, ())
        S.mon['nextent'] = i0 + n
        return ids

    def vec_call(self, E, S, fr, n, info, m, ents):
        nm, a, nid = info['nm'] or '', info['args'], info['nid']
        if nm in ('push_back', 'emplace_back') and len(a) <= 1:
            i = S.mon.get('nextent', 1)
            S.mon['nextent'] = i + 1
            self.put(S, m, ents + (i,), False, ())
            if a and isinstance(a[0], tuple) and a[0][0] == 'L': E.copy_obj(S, fr, ent(i), a[0][1], n, ev=False)
            elif a:
                v = a[0]
                S.mem[ent(i)] = v
            else: S.mem[ent(i)] = 0
            self.inserted(E, S, fr, m, i, n)
            return [(S, ('L', ent(i)))]
        if nm in ('operator[]', 'at') and len(a) == 1:
            k = a[0]
            if isinstance(k, tuple) and k and k[0] == 'L': k = E.content(S, k[1])
            if not isinstance(k, int):
                out = []
                for j, i in enumerate(ents):
                    s2 = E.assume(S.copy(), E.mkcmp(S, '==', k, j), True)
                    if s2 is not None: out.append((s2, ('L', ent(i))))
                s2 = E.assume(S.copy(), E.mkcmp(S, '>=', k, len(ents)), True)
                if s2 is not None: self.bad(E, s2, fr, n, 'may index a sequence out of range')
                return out + ([(s2, E.tmp(s2, fr, nid, 0))] if s2 is not None else [])
            if k >= len(ents) or k < 0:
                if nm == 'at': return [('throw', S, 'std::out_of_range')]
                self.bad(E, S, fr, n, 'indexes a sequence out of range')
                return []
            return [(S, ('L', ent(ents[k])))]
        if nm in ('front', 'back'):
            if not ents:
                self.bad(E, S, fr, n, 'takes the first or last element of an empty sequence')
                return []
            return [(S, ('L', ent(ents[0 if nm == 'front' else -1])))]
        if nm == 'pop_back':
            if ents: self.put(S, m, ents[:-1], False, ())
            return [(S, 0)]
        if nm == 'reserve': return [(S, 0)]
        if nm == 'capacity': return [(S, len(ents))]
        return None

    # -- multimaps: equal keys are adjacent
    def multi_call(self, E, S, fr, n, info, m, ents, K):
        nm, a, nid = info['nm'] or '', info['args'], info['nid']
        T = lambda s, v: E.tmp(s, fr, nid, v)

        def match(k):
            out = []
            for i in ents:
                r = self.key_eq(E, S, E.content(S, key_loc(i)), k)
                if r is None: return None
                if r: out.append(i)
            return out

        if nm in ('insert', 'emplace') and a and isinstance(a[-1], tuple):
            src = None
            if len(a) == 1 and a[0][0] == 'L':
                src = a[0][1]; k = E.content(S, ('f', src, FIRST))
            elif len(a) == 2 and nm == 'emplace': k = K(a[0])
            else: return None
            l = match(k)
            if l is None: return None
            i = S.mon.get('nextent', 1)
            S.mon['nextent'] = i + 1
            es = list(ents)
            es.insert(es.index(l[-1]) + 1 if l else len(es), i)
            self.put(S, m, es, False, ())
            S.mem[key_loc(i)] = k
            if src is not None: E.copy_obj(S, fr, val_loc(i), ('f', src, SECOND), n, ev=False)
            elif a[1][0] == 'L': E.copy_obj(S, fr, val_loc(i), a[1][1], n, ev=False)
            else: S.mem[val_loc(i)] = a[1]
            self.inserted(E, S, fr, m, i, n)
            return [(S, T(S, i))]
        if nm in ('find', 'count', 'equal_range', 'erase', 'lower_bound', 'upper_bound') and len(a) == 1:
            k = K(a[0])
            if nm == 'erase' and 'iterator' in (n.get('pt') or [''])[0]: return None
            l = match(k)
            if l is None: return None
            if nm == 'find': return [(S, T(S, l[0] if l else 0))]
            if nm == 'count': return [(S, len(l))]
            if nm == 'erase':
                for i in l: self.drop(E, S, fr, m, i, n)
                return [(S, len(l))]
            if nm != 'equal_range': return None
            t = ('t', fr.id, nid)
            E.kill(S, t); S.mem.pop(t, None)
            j = ents.index(l[-1]) + 1 if l else 0
            S.mem[('f', t, FIRST)] = l[0] if l else 0
            S.mem[('f', t, SECOND)] = (ents[j] if j < len(ents) else 0) if l else 0
            return [(S, ('L', t))]
        return None

    # -- calls
    def map_call(self, E, S, fr, n, info):
        nm, cls, obj, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['nid']
        a = info['args']
        T = lambda s, v: E.tmp(s, fr, nid, v)
        if nm in ('make_pair',) and len(a) == 2 or (info.get('ctor') and strip_targs(cls) == 'std::pair' and len(a) == 2):
            t = obj if info.get('ctor') else ('t', fr.id, nid)
            E.kill(S, t); S.mem.pop(t, None)
            for fld, v in ((FIRST, a[0]), (SECOND, a[1])):
                if isinstance(v, tuple) and v and v[0] == 'L': E.copy_obj(S, fr, ('f', t, fld), v[1], n, ev=False)
                else: S.mem[('f', t, fld)] = v
            return [(S, None if info.get('ctor') else ('L', t))]
        if info.get('ctor') and strip_targs(cls) == 'std::pair' and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'L':
            E.copy_obj(S, fr, obj, a[0][1], n, ev=False)
            return [(S, None)]
        sc = strip_targs(cls)
        if 'iterator' in sc.rsplit('::', 1)[-1] or (nm in ('operator==', 'operator!=') and not obj and len(a) == 2):
            r = self.iter_call(E, S, fr, n, info)
            if r is not None: return r
        m = self.is_map(obj) if obj is not None and not info.get('ctor') else None
        if m is None or n.get('inroot'): return None
        ents, opn, absent = self.entries(S, m)
        K = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else (('str', v[1].rstrip('\0')) if isinstance(v, tuple) and v[0] == 'strp' else v)
        if m in self.multis and not opn:
            r = self.multi_call(E, S, fr, n, info, m, ents, K)
            if r is not None: return r
        if nm in ('find',) and len(a) == 1:
            return [(s, T(s, i)) for s, i in self.look(E, S, fr, m, K(a[0]), n)]
        if nm in ('count', 'contains') and len(a) == 1:
            return [(s, int(bool(i))) for s, i in self.look(E, S, fr, m, K(a[0]), n)]
        if nm in ('end', 'cend'): return [(S, T(S, 0))]
        if nm in ('begin', 'cbegin') and not opn: return [(S, T(S, ents[0] if ents else 0))]
        if nm == 'size' and not opn: return [(S, len(ents))]
        if m in self.vecs and not opn:
            r = self.vec_call(E, S, fr, n, info, m, ents)
            if r is not None: return r
        if nm == 'empty':
            if not opn or ents: return [(S, int(not ents))]
        if nm in ('upper_bound', 'lower_bound') and not opn:
            r = self.bound(E, S, fr, m, nm, K(a[0]), n)
            if r is not None: return [(s, T(s, i)) for s, i in r]
        if nm == 'erase' and len(a) == 1:
            v = a[0]
            c = K(v)
            if 'iterator' in (n.get('pt') or [''])[0]:
                if isinstance(c, int) and c in ents:
                    nx = self.step(S, c, 1)
                    self.drop(E, S, fr, m, c, n)
                    return [(S, T(S, nx))]
                self.bad(E, S, fr, n, 'erases through an iterator that is not a current element')
                return [(S, T(S, 0))]
            out = []
            for s, i in self.look(E, S, fr, m, c, n):
                if i: self.drop(E, s, fr, m, i, n)
                out.append((s, int(bool(i))))
            return out
        if nm == 'erase' and len(a) == 2:
            b, e = K(a[0]), K(a[1])
            if isinstance(b, int) and isinstance(e, int):
                on = False
                for i in list(ents):
                    if i == b: on = True
                    if i == e: on = False
                    if on: self.drop(E, S, fr, m, i, n)
                return [(S, T(S, e))]
        if nm == 'clear' and not opn:
            for i in list(ents): self.drop(E, S, fr, m, i, n)
            return [(S, 0)]
        if nm in ('insert', 'emplace') and a and isinstance(a[-1], tuple):
            src = None
            if len(a) == 1 and a[0][0] == 'L' and not self.sets:
                src = a[0][1]; k = E.content(S, ('f', src, FIRST))
            elif len(a) == 1 and self.sets: k = K(a[0])
            elif len(a) == 2 and nm == 'emplace': k = K(a[0])
            else: return None
            out = []
            for s, i in self.look(E, S, fr, m, k, n):
                ok = int(not i)
                if not i:
                    i = s.mon.get('nextent', 1)
                    s.mon['nextent'] = i + 1
                    es, op, ab = self.entries(s, m)
                    self.put(s, m, es + (i,), op, ab - {k})
                    if self.sets: s.mem[ent(i)] = k
                    else:
                        s.mem[key_loc(i)] = k
                        if src is not None: E.copy_obj(s, fr, val_loc(i), ('f', src, SECOND), n, ev=False)
                        else:
                            v = a[1]
                            if v[0] == 'L': E.copy_obj(s, fr, val_loc(i), v[1], n, ev=False)
                            else: s.mem[val_loc(i)] = v
                    self.inserted(E, s, fr, m, i, n)
                if 'std::pair<' in n.get('type', ''):
                    t = ('t', fr.id, nid)
                    E.kill(s, t); s.mem.pop(t, None)
                    s.mem[('f', t, FIRST)] = i
                    s.mem[('f', t, SECOND)] = ok
                    out.append((s, ('L', t)))
                else: out.append((s, T(s, i)))
            return out
        if nm in ('operator[]', 'at') and len(a) == 1:
            out = []
            for s, i in self.look(E, S, fr, m, K(a[0]), n):
                if not i and nm == 'at': out.append(('throw', s, 'std::out_of_range')); continue
                if not i:
                    i = s.mon.get('nextent', 1)
                    s.mon['nextent'] = i + 1
                    es, op, ab = self.entries(s, m)
                    self.put(s, m, es + (i,), op, ab - {K(a[0])})
                    s.mem[key_loc(i)] = K(a[0])
                    s.mem[val_loc(i)] = 0
                    self.inserted(E, s, fr, m, i, n)
                out.append((s, ('L', val_loc(i))))
            return out
        return None

    def bound(self, E, S, fr, m, nm, k, n): return None

    def bad(self, E, S, fr, n, what): self.ev(S, 'bad', what)

    def iter_call(self, E, S, fr, n, info):
        nm, obj, nid, a = info['nm'] or '', info['obj'], info['nid'], info['args']
        if info.get('ctor'):
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'L' and isinstance(E.content(S, a[0][1]), int):
                S.mem[obj] = E.content(S, a[0][1])
                return [(S, None)]
            return None
        if obj is None and len(a) == 2: l = [x[1] if isinstance(x, tuple) and x and x[0] == 'L' else None for x in a]
        elif obj is not None: l = [obj] + [x[1] if isinstance(x, tuple) and x and x[0] == 'L' else None for x in a]
        else: return None
        v = [E.content(S, x) if x is not None else None for x in l]
        if nm in ('operator==', 'operator!=') and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], int):
            return [(S, int((v[0] == v[1]) == (nm == 'operator==')))]
        if obj is None or not isinstance(v[0], int): return None
        if nm in ('operator->', 'operator*'):
            if v[0] == 0 or S.mon.get(('erased', v[0])):
                self.bad(E, S, fr, n, 'uses an iterator that %s' % ('is end()' if v[0] == 0 else 'has been erased'))
            return [(S, E.addr(ent(v[0])) if nm == 'operator->' else ('L', ent(v[0])))]
        if nm in ('operator++', 'operator--'):
            j = self.step(S, v[0], 1 if nm == 'operator++' else -1) if v[0] or nm == 'operator--' else None
            if S.mon.get(('erased', v[0])) or j is None:
                self.bad(E, S, fr, n, 'advances an iterator that is not valid')
                return []
            S.mem[obj] = j
            return [(S, ('L', obj) if not a else E.tmp(S, fr, nid, v[0]))]
        return None
