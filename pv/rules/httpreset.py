"""C11 a reset parser behaves like a new one."""
from ..load import AnalysisError, strip_targs
from ..eng import Hooks, Engine, TAG, add, mod_fields
from ..step import BUF, byte
from ..report import where
from .httpmsg import M, P, params
from .httpvalue import fields

this = ('o', 'this')
CTL = (P + 'm_message_parse_state', P + 'm_headers_parse_state', P + 'm_chunked_content_parse_state')
PURE = frozenset(('clear', 'erase', 'operator=', 'assign', 'resize'))


def mentions(prog, fid):
    """parser fields mentioned by a function or anything it calls"""
    seen, st, out = set(), [fid], set()
    while st:
        x = st.pop()
        if x in seen or x not in prog.funcs: continue
        seen.add(x)
        for n in prog.funcs[x]['nodes']:
            if n['k'] == 'mem' and n.get('fq', '').startswith(P): out.add(n['fq'])
            if n['k'] in ('call', 'ctor') and n.get('inroot') and n.get('fid'):
                st.append(n['fid'])
                if n.get('virt'): st += list(prog.overriders.get(n['fid'], ()))
    return out


class Live(Hooks):
    """records every field whose value at entry is used"""
    unroll = 40
    max_states = 60000
    control = frozenset(CTL)
    opaque = frozenset()

    def __init__(self, prog):
        self.prog, self.reads, self.where = prog, set(), {}

    def use(self, S, fr, x, n):
        if x.startswith(P) and x not in S.mon.get('w', ()):
            self.reads.add(x)
            self.where.setdefault(x, fr.f if hasattr(fr, 'f') else None)

    def wrote(self, S, x):
        if x.startswith(P): S.mon['w'] = S.mon.get('w', frozenset()) | {x}

    @staticmethod
    def fld(l): return l[2] if isinstance(l, tuple) and len(l) == 3 and l[0] == 'f' and l[1] == this and isinstance(l[2], str) else None

    def read(self, E, S, fr, loc, val, n):
        x = self.fld(loc)
        if x: self.use(S, fr, x, n)

    def write(self, E, S, fr, loc, val, n):
        x = self.fld(loc)
        if x: self.wrote(S, x)

    def call(self, E, S, fr, n, info):
        nm, obj, a = info['nm'] or '', info['obj'], info['args']
        for v in a:
            x = self.fld(v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else None
            if x and not n.get('inroot'): self.use(S, fr, x, n)
        x = self.fld(obj) if obj else None
        if x and not n.get('inroot') and not info.get('ctor'):
            if nm in ('clear', 'operator=', 'assign') or nm == 'erase' and whole(a) or nm == 'resize' and a and a[0] == 0: self.wrote(S, x)
            else: self.use(S, fr, x, n)
        if n.get('inroot') and obj == this and nm in self.opq or nm in self.opq and n.get('inroot'):
            for x in mentions(self.prog, n.get('fid')): self.use(S, fr, x, n)
            for x in mod_fields(self.prog, n.get('fid')):
                if x in CTL: S.mem[('f', this, x)] = E.sym(fr, info['nid'], ('i', 32, False), x)
            t = n.get('type', '')
            if 'tribool' in t: return None
            if t == 'void': return [(S, 0)]
            return None
        return None

    opq = frozenset()

    def inline(self, E, S, fr, n, info, g): return info['obj'] == this and not g.get('static') or strip_targs(info['cls'] or '') == '' and not info['obj']


def whole(a): return not a or a[0] == 0 and (len(a) == 1 or not isinstance(a[1], int) or a[1] & (2 ** 64 - 1) == 2 ** 64 - 1)


def rc_of(E, s, v):
    if isinstance(v, tuple) and v and v[0] == 'L': v = E.content(s, v[1])
    return v


def reset(prog, R, tier):
    R.rule("for every reachable control state of the parser the byte-processing functions are interpreted on unknown input, recording which members' entry values they use before writing and the control state each path continues in; backward propagation from all states gives the members whose value at the start of a message matters; every such member, and every member a public query returns, must hold the constructor's value after reset(), and the members set by configuration must be left alone")
    fl = [P + n for c, n, t in fields(prog, 'pion::http::parser')]
    typ = {P + n: t for c, n, t in fields(prog, 'pion::http::parser')}
    # -- configuration: members some public setter (not reset, not a parse function) assigns from its argument
    ctor = [f for f in prog.by_name.get(P + 'parser', []) if 'blocks' in f and not (len(f['params']) == 1 and 'parser' in params(f)[0][0])]
    rs = [f for f in prog.by_name.get(P + 'reset', []) if 'blocks' in f]
    if not ctor or not rs: raise AnalysisError("no parser constructor or no parser::reset")
    config = set()
    for nm in ('set_read_buffer', 'set_payload_handler', 'parse_headers_only', 'set_save_raw_headers', 'set_max_content_length', 'reset_max_content_length', 'set_logger'):
        for f in prog.by_name.get(P + nm, []):
            if 'blocks' in f: config |= {x for x in mod_fields(prog, f['fid']) if x.startswith(P)}
    config |= {x for x in fl if typ[x].startswith('const ') and not typ[x].rstrip().endswith('*')}
    loggers = {x for x in fl if 'logger' in typ[x].lower()}

    # -- values after construction and after reset, for requests and responses
    def after(f, req, new):
        H = Hooks(); H.unroll, H.max_states = 20, 2000
        E = Engine(prog, H)

        def setup(E, S, fr):
            if new:
                for i, (t, l) in enumerate(params(f)):
                    if t.replace('const ', '') == 'bool': S.mem[('v', fr.id, f['params'][i])] = req
            else: S.mem[('f', this, P + 'm_is_request')] = req
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        return [(k, {x: E.content(s, ('f', this, x)) for x in fl}, s) for k, s, v in ex]

    good = {}
    first = {}
    for req in (0, 1):
        want = [v for k, v, s in after(ctor[0], req, True) if k == 'ret']
        if not want: raise AnalysisError("the parser constructor does not return")
        got = after(rs[0], req, False)
        first[req] = {x: want[0][x] for x in CTL}
        R.ob('reset:returns', bool(got) and all(k == 'ret' for k, v, s in got), where(rs[0]), "reset() does not return")
        for x in fl:
            w = {repr(v[x]) for v in want}
            init = ('init', ('f', this, x))
            vals = [v[x] for k, v, s in got]
            zero = lambda v: ('str', '') if 'basic_string' in typ[x] and (v == init) else v
            ok = all(repr(v) in w or ('basic_string' in typ[x] and zero(want[0][x]) == ('str', '') and v == ('str', '')) for v in vals)
            good[x] = good.get(x, True) and ok and not any(v == init for v in vals)
            if x in config or x in loggers: R.ob('reset:keeps %s' % x[len(P):], x.endswith('m_is_request') and all(v == req for v in vals) or all(v == init for v in vals) or (x.endswith('_ptr') and all(v == 0 for v in vals)), where(rs[0]), "reset() changes the configured %s" % x[len(P):])

    # -- liveness over the control states
    en = {x: prog.enum(P + t) for x, t in zip(CTL, ('message_parse_state_t', 'header_parse_state_t', 'chunk_parse_state_t'))}
    body = {}
    for nm in ('parse_headers', 'finish_header_parsing', 'parse_chunks', 'consume_content', 'consume_content_as_next_chunk', 'finish', 'parse', 'compute_msg_status', 'parse_missing_data'):
        l = [f for f in prog.by_name.get(P + nm, []) if 'blocks' in f]
        if not l: raise AnalysisError("no parser::%s" % nm)
        body[nm] = l[0]
    ms = {n.replace('PARSE_', ''): v for n, v in en[CTL[0]].items()}

    memo = {}

    def node(kind, st, req):
        """(reads, [(written, result, {ctl: value})]) of one processing function in one control state"""
        key = (kind, st, req)
        if key in memo: return memo[key]
        H = Live(prog)
        H.opq = frozenset(('add_header', 'compute_msg_status', 'finish' if kind != 'fin' else '', 'set_error', 'concatenate_chunks', 'update_message_with_header_data', 'parse_url_encoded', 'parse_cookie_header', 'create_content_buffer', 'update_transfer_encoding_using_header', 'update_content_length_using_header'))
        E = Engine(prog, H)

        def setup(E, S, fr):
            S.setint(BUF, ((4096, 1 << 46),))
            S.mem[('f', this, P + 'm_read_ptr')] = BUF
            S.mem[('f', this, P + 'm_read_end_ptr')] = add(BUF, 1)
            byte(0)
            for x in fl:
                t = typ[x].replace('const ', '')
                if 'size_t' in t or t == 'unsigned long': TAG[('init', ('f', this, x))] = ('i', 64, False)
                elif 'basic_string' in t: TAG[('init', ('f', this, x))] = 'str'
            S.mem[('f', this, P + 'm_is_request')] = req
            if kind in ('hdr', 'foot'): S.mem[('f', this, CTL[1])] = st
            if kind == 'chunk': S.mem[('f', this, CTL[2])] = st
            S.mem[('f', this, CTL[0])] = ms[{'hdr': 'HEADERS', 'foot': 'FOOTERS', 'fhp': 'HEADERS', 'chunk': 'CHUNKS', 'body': 'CONTENT', 'tail': 'CONTENT_NO_LENGTH', 'fin': 'END'}[kind]]
        f = body[{'hdr': 'parse_headers', 'foot': 'parse_headers', 'fhp': 'finish_header_parsing', 'chunk': 'parse_chunks', 'body': 'consume_content', 'tail': 'consume_content_as_next_chunk', 'fin': 'finish'}[kind]]
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        outs = []
        for k, s, v in ex:
            if k != 'ret': continue
            outs.append((s.mon.get('w', frozenset()), rc_of(E, s, v), {c: E.content(s, ('f', this, c)) for c in CTL}, s.path))
        memo[key] = (frozenset(H.reads), outs)
        return memo[key]

    nstates = 0
    live_all = {}
    for req in (0, 1):
        succ, work = {}, []
        ch0 = [first[req][CTL[2]]]

        def visit(n):
            if n not in succ: succ[n] = None; work.append(n)
            return n
        start = visit(('hdr', first[req][CTL[1]], req))
        while work:
            n = work.pop()
            reads, outs = node(*n)
            if n[0] not in ('fhp', 'fin', 'tail', 'body') and not outs: raise AnalysisError("no exits in parser state %s" % (n,))
            edges = []
            for w, rc, ctl, path in outs:
                nxt = []
                if n[0] in ('hdr', 'foot'):
                    if rc == 1 or not isinstance(rc, int): nxt.append(visit(('fhp' if n[0] == 'hdr' else 'fin', None, req)))
                    if rc != 1 and rc != 0 or not isinstance(rc, int):
                        if isinstance(ctl[CTL[1]], int): nxt.append(visit((n[0], ctl[CTL[1]], req)))
                        else: raise AnalysisError("header state unknown after %s" % (n,))
                elif n[0] == 'fhp':
                    m = ctl[CTL[0]]
                    for name, v in ms.items():
                        if isinstance(m, int) and m != v: continue
                        if name == 'CHUNKS': nxt += [visit(('chunk', c, req)) for c in ([ctl[CTL[2]]] if isinstance(ctl[CTL[2]], int) else ch0)]
                        elif name == 'CONTENT': nxt.append(visit(('body', None, req)))
                        elif name == 'CONTENT_NO_LENGTH': nxt.append(visit(('tail', None, req)))
                        elif name == 'END': nxt.append(visit(('fin', None, req)))
                    nxt.append(visit(('fin', None, req)))
                elif n[0] == 'chunk':
                    if isinstance(ctl[CTL[2]], int): nxt.append(visit(('chunk', ctl[CTL[2]], req)))
                    else: raise AnalysisError("chunk state unknown after %s" % (n,))
                    if rc != 0: nxt.append(visit(('fin', None, req)))
                    if rc != 0 and ctl[CTL[0]] != ms['CHUNKS']:
                        h = ctl[CTL[1]]
                        nxt += [visit(('foot', x, req)) for x in ([h] if isinstance(h, int) else sorted(en[CTL[1]].values())[:0] + footer_states(en))]
                elif n[0] in ('body', 'tail'): nxt += [n, visit(('fin', None, req))]
                edges.append((w, nxt))
            succ[n] = (reads, edges)
        nstates += len(succ)
        live = {n: set(succ[n][0]) for n in succ}
        ch = True
        while ch:
            ch = False
            for n, (reads, edges) in succ.items():
                for w, nxt in edges:
                    for m in nxt:
                        d = live[m] - w - live[n]
                        if d: live[n] |= d; ch = True
        for x in live[start]: live_all.setdefault(x, req)
    # -- queries
    seen = {}
    for name in sorted(prog.by_name):
        if name.rsplit('::', 1)[0] + '::' != P: continue
        for f in prog.by_name[name]:
            if 'blocks' not in f or f.get('access', 0) != 0 or f.get('static') or f.get('params'): continue
            if mod_fields(prog, f['fid']) & set(fl): continue
            for x in mentions(prog, f['fid']): seen.setdefault(x, f)
    for x in fl:
        if x in config or x in loggers: continue
        nm = x[len(P):]
        if x in CTL: R.ob('reset:' + nm, good[x], where(rs[0]), "the parser state %s is not the initial one after reset()" % nm)
        elif x in seen: R.ob('reset:' + nm, good[x], where(rs[0]), "%s(), used after reset(), still tells about the former message: %s is not reset" % (seen[x]['sfn'].rsplit('::', 1)[1], nm))
        else: R.ob('reset:' + nm, good[x] or x not in live_all, where(rs[0]), "%s is neither set by reset() nor written before it is used while parsing the next message" % nm)
    R.rule('members used before written: ' + ', '.join(sorted(x[len(P):] for x in live_all)))
    R.count('control states', nstates); R.count('members', len(fl)); R.count('members used before written', len(live_all))
    R.floor('control states', nstates, 30)


def footer_states(en): return [v for k, v in en[CTL[1]].items() if k.endswith('HEADER_START')]
