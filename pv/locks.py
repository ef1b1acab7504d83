"""Interprocedural lockset dataflow over the exported CFGs.

Locks are named by the mutex field (template arguments stripped).  For every CFG
element the analysis computes the mutexes certainly held (must) and possibly held (may).
"""
from .eng import LOCKT, base_type, is_ref
from .load import strip_targs

ALL = None      # "every lock" (constructor context)


class LockFlow:
    def __init__(self, prog):
        self.p = prog
        self.entry_must = {}
        self.entry_may = {}
        self.addr_taken = set()
        self.callers = {}
        self.sites = {}       # fid -> list of (elemidx..)
        self.funcs = {k: f for k, f in prog.funcs.items() if 'blocks' in f}
        for fid, f in self.funcs.items():
            used = set()
            for n in f['nodes']:
                if n['k'] in ('call', 'ctor') and n.get('fid'):
                    for t in self.targets(n): self.callers.setdefault(t, set()).add(fid)
            # function references that are not the callee of a direct call
            callee_refs = self.callee_refs(f)
            for i, n in enumerate(f['nodes']):
                if n['k'] in ('func', 'memfn') and i not in callee_refs:
                    self.addr_taken.add(n.get('fid'))
        self.res = {}
        self.solve()

    def callee_refs(self, f):
        """func/memfn nodes emitted for direct calls: they appear once per call with the same fid"""
        # a direct call's callee node is emitted by the CFG right before; address-taken uses are operands of un & or args
        ops = set()
        for n in f['nodes']:
            if n['k'] == 'un': ops.add(n['a'])
            for a in n.get('args', []): ops.add(a)
            if n['k'] in ('cast', 'asg', 'ret', 'load') and isinstance(n.get('a'), int): ops.add(n['a'])
            if n['k'] == 'asg': ops.add(n['b'])
            if n['k'] == 'decl':
                for v in n['vars']:
                    if 'init' in v: ops.add(v['init'])
        return {i for i, n in enumerate(f['nodes']) if n['k'] in ('func', 'memfn') and i not in ops}

    def internal(self, f):
        """only reachable through calls visible in the program"""
        if f['fid'] in self.addr_taken: return False
        if f['fid'] not in self.callers: return False
        if f.get('cls') is None: 
            # free function: internal if it lives in a .cpp file of the library
            return f['rel'].endswith('.cpp')
        return f.get('access') in (1, 2)

    def mutex_of(self, f, nid):
        n = f['nodes'][nid]
        while n['k'] in ('cast', 'load', 'un'):
            n = f['nodes'][n['a']]
        if n['k'] == 'mem': return strip_targs(n['fq'])
        if n['k'] == 'glob': return strip_targs(n['name'])
        if n['k'] == 'var':
            # reference/pointer variable bound to a mutex
            for m in f['nodes']:
                if m['k'] == 'decl':
                    for v in m['vars']:
                        if v['var'] == n['var'] and 'init' in v and (is_ref(v['type']) or v['type'].endswith('*')):
                            return self.mutex_of(f, v['init'])
            return ('param', n['name'])
        if n['k'] == 'call' and n.get('fid') in self.funcs and n.get('type', '').endswith('mutex'):
            g = self.funcs[n['fid']]
            for m in g['nodes']:
                if m['k'] == 'ret' and 'a' in m: return self.mutex_of(g, m['a'])
        return '?'

    def flow(self, f, must0, may0, visit=None):
        """run the intra-procedural flow; visit(elem, node, must, may)"""
        blocks = f['bmap']
        inn = {f['entry']: (must0, may0, ())}
        work = [f['entry']]
        cnt = {}
        trystates = {}
        while work:
            b = work.pop()
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 60: continue
            must, may, lv = inn[b]
            must, may, lv = self.block(f, blocks[b], must, may, dict(lv), None, trystates)
            for s in blocks[b]['succ']:
                if s is None: continue
                if blocks[b].get('noret') and s == f['exit']: continue
                self.push(inn, s, must, may, lv, work)
            # catch handlers
            for t, (m1, m2, l1) in list(trystates.items()):
                for cb in self.catches(f, t):
                    self.push(inn, cb, m1, m2, dict(l1), work)
        if visit:
            for b, (must, may, lv) in inn.items():
                self.block(f, blocks[b], must, may, dict(lv), visit, {})
        return inn

    def push(self, inn, s, must, may, lv, work):
        lvt = tuple(sorted(lv.items(), key=repr))
        if s not in inn:
            inn[s] = (must, may, lvt); work.append(s)
            return
        om, oy, ol = inn[s]
        nm = om if must is ALL else must if om is ALL else om & must
        ny = oy | may
        ol = dict(ol)
        nl = {}
        for k in set(ol) | set(lv):
            a, b = ol.get(k), lv.get(k)
            if a is None or b is None: nl[k] = a or b
            elif a == b: nl[k] = a
            else: nl[k] = (a[0], None)
        nlt = tuple(sorted(nl.items(), key=repr))
        if (nm, ny, nlt) != inn[s]:
            inn[s] = (nm, ny, nlt)
            work.append(s)

    def catches(self, f, t):
        r = []
        for b in f['blocks']:
            tm = b.get('term')
            if tm and tm['k'] == 'CXXTryStmt' and tm.get('try') == t:
                r += [s for s in b['succ'] if s is not None and f['bmap'][s].get('label', {}).get('catch')]
        return r

    def block(self, f, blk, must, may, lv, visit, trystates):
        """lv: lock variable id / node id -> (mutex, held True/False/None)"""
        nodes = f['nodes']

        def acq(m):
            nonlocal must, may
            if must is not ALL: must = must | {m}
            may = may | {m}

        def rel(m):
            nonlocal must, may
            if must is not ALL: must = must - {m}
            may = may - {m}
        for e in blk['el']:
            if isinstance(e, dict):
                if e['e'] == 'dtor' and base_type(e['type']).startswith(LOCKT):
                    v = lv.pop(('v', e['var']), None)
                    if v and v[1] is not False: rel(v[0])
                elif visit: visit(e, None, must, may)
                if e['e'] == 'init' and 'init' in e and base_type(e.get('type', '')).startswith(LOCKT):
                    v = lv.pop(('n', e['init']), None)
                    if v and v[1]:
                        acq(v[0])      # a lock member acquires for the object's lifetime
                continue
            n = nodes[e]
            for t in n.get('try', []) or []:
                o = trystates.get(t)
                if o is None: trystates[t] = (must, may, tuple(lv.items()))
                else: trystates[t] = (o[0] if must is ALL else must if o[0] is ALL else o[0] & must, o[1] | may, o[2])
            if visit: visit(e, n, must, may)
            if n['k'] == 'ctor' and (n.get('cls') or '').startswith(LOCKT):
                if n.get('copy'):
                    a = n['args'][0]
                    if ('n', a) in lv: lv[('n', e)] = lv.pop(('n', a))
                elif n['args']:
                    m = self.mutex_of(f, n['args'][0])
                    defer = len(n['args']) > 1 and 'defer' in n['pt'][1]
                    lv[('n', e)] = (m, not defer)
            elif n['k'] == 'decl':
                for v in n['vars']:
                    if 'init' in v and ('n', v['init']) in lv:
                        x = lv.pop(('n', v['init']))
                        lv[('v', v['var'])] = x
                        if x[1]: acq(x[0])
            elif n['k'] == 'call' and 'obj' in n:
                cls, nm = n.get('cls') or '', n.get('nm')
                if cls.startswith(LOCKT) and nm in ('lock', 'unlock'):
                    o = nodes[n['obj']]
                    k = ('v', o['var']) if o['k'] == 'var' else None
                    if k in lv:
                        m = lv[k][0]
                        lv[k] = (m, nm == 'lock')
                        acq(m) if nm == 'lock' else rel(m)
                    elif o['k'] == 'mem':
                        # lock object stored in a field: by the field's recorded mutex
                        pass
                elif cls in ('boost::mutex', 'std::mutex') and nm in ('lock', 'unlock'):
                    m = self.mutex_of(f, n['obj'])
                    acq(m) if nm == 'lock' else rel(m)
        return must, may, lv

    def solve(self):
        # entry locksets, to a fixpoint (greatest for must)
        for fid, f in self.funcs.items():
            if f['kind'] in ('ctor', 'dtor'): self.entry_must[fid] = ALL
            else: self.entry_must[fid] = ALL if self.internal(f) else frozenset()
            self.entry_may[fid] = frozenset()
        pend = set(self.funcs)
        rounds = 0
        contrib = {}
        while pend:
            rounds += 1
            nxt = set()
            for fid in sorted(pend):
                f = self.funcs[fid]
                calls = []

                def v(e, n, must, may):
                    if n is not None and n['k'] in ('call', 'ctor') and n.get('fid'):
                        calls.append((n, must, may))
                self.flow(f, self.entry_must[fid], self.entry_may[fid], v)
                c = {}
                for n, must, may in calls:
                    for t in self.targets(n):
                        if t not in self.funcs: continue
                        o = c.get(t)
                        c[t] = (must, may) if o is None else (
                            must if o[0] is ALL else o[0] if must is ALL else o[0] & must, o[1] | may)
                contrib[fid] = c
            # recompute entries
            for t, g in self.funcs.items():
                if g['kind'] in ('ctor', 'dtor'): must = ALL
                elif self.internal(g):
                    must = ALL
                    for cf in self.callers.get(t, ()):
                        if cf in contrib and t in contrib[cf]:
                            m = contrib[cf][t][0]
                            must = m if must is ALL else must if m is ALL else must & m
                else: must = frozenset()
                may = frozenset()
                if must != self.entry_must[t]:
                    self.entry_must[t] = must; nxt.add(t)
            pend = nxt
            if rounds > 20: break

    def targets(self, n):
        fid = n['fid']
        if n.get('virt') and not n.get('qual'):
            out, st = {fid}, [fid]
            while st:
                x = st.pop()
                for y in self.p.overriders.get(x, ()):
                    if y not in out: out.add(y); st.append(y)
            return out
        return {fid}
