"""C26 what a writer sends: headers once and first, chunks framed, content complete and in order."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..maps import Maps, ent, val_loc, FIRST, SECOND
from ..report import where
from ..models import boolof
from .httpmsg import Scen, params, set_arg, evs, M
from .httpsend import DH
from .auth import AU, init, app, meth, this, fact
from .conn import CH, CN, CONNP, BOOL, sc_

W = 'pion::http::writer::'
BC = W + 'binary_cache_t::'
MSG = app('message', tag='p')
FLD = {'m_content_buffers': 'cb', 'm_text_cache': 'tc', 'm_binary_cache': 'bc'}
I64 = ('i', 64, False)
REAL = ('pion::http::response_writer', 'pion::http::request_writer')
FIELD = {REAL[0]: 'm_http_response', REAL[1]: 'm_http_request'}


class WH(DH, CH):
    """a writer with known pieces of content; its message and connection are opaque behind their accessors"""
    vecs = frozenset(('cb', 'tc', 'bc', 'wb'))
    multis = frozenset()
    uniq_new = True

    def __init__(self, R=None, real=None):
        CH.__init__(self)
        self.R, self.real, self.params_ = R, real, ()

    def is_map(self, obj):
        if obj[0] == 'f' and isinstance(obj[2], str):
            l = FLD.get(obj[2].rsplit('::', 1)[-1])
            if l: return l
        if obj == ('o', 'bc'): return 'bc'
        return 'wb' if self.isvec else None

    def stream(self, obj, cls): return obj is not None and (obj[0] == 'f' and str(obj[2]).endswith('m_content_stream') or 'stringstream' in cls)

    def first(self, E, S, fr, n, info):
        nm, a, cls, obj, nid = info['nm'] or '', info['args'], info['cls'] or '', info['obj'], info['nid']
        sc = lambda v: sc_(E, S, v)
        sfn = info['sfn'] or ''
        ext = not n.get('inroot')
        m = self.is_map(obj) if obj is not None and ext and not info.get('ctor') else None
        if m and nm == 'insert' and len(a) == 3:
            p, b, e = [sc(x) for x in a]
            if not all(isinstance(x, int) for x in (p, b, e)): return None
            src, on = [], False
            for k, v in S.mon.items():
                if isinstance(k, tuple) and k[0] == 'map' and b in v[0]:
                    for i in v[0]:
                        if i == b: on = True
                        if i == e and i != b: break
                        if on: src.append(i)
            if b == e: src = []
            new = []
            for i in src:
                j = S.mon.get('nextent', 1); S.mon['nextent'] = j + 1
                E.copy_obj(S, fr, ent(j), ent(i), n, ev=False)
                new.append(j)
            l = list(self.entries(S, m)[0])
            at = l.index(p) if p in l else len(l)
            self.put(S, m, l[:at] + new + l[at:], False, ())
            return [(S, E.tmp(S, fr, nid, new[0] if new else p))]
        if m in ('cb', 'tc') and nm in ('push_back', 'emplace_back') and 'vector<std::' in cls:
            for i in self.entries(S, m)[0]: S.mon[('erased', i)] = 1      # a growing vector moves its strings
        if ext and sfn in ('memcpy', 'std::memcpy') and len(a) == 3:
            self.ev(S, 'memcpy', sc(a[0]), sc(a[1]), sc(a[2])); return [(S, a[0])]
        if ext and sfn in ('sprintf', 'snprintf', 'std::sprintf', 'std::snprintf'):
            i = 1 if 'snprintf' in sfn else 0
            fmt = a[1 + i]
            if isinstance(fmt, tuple) and fmt[0] == 'strp' and len(a) == 3 + i:
                tx = {'%lx': 'hex', '%zx': 'hex', '%llx': 'hex', '%lX': 'hex', '%zX': 'hex', '%lu': 'dec', '%ld': 'dec', '%zu': 'dec'}.get(fmt[1].rstrip('\0'), 'formatted ' + fmt[1])
                S.mon[('ctext', a[0])] = app(tx, sc(a[2 + i]))
                return [(S, app('printed', tag=('i', 32, True)))]
        if info.get('ctor') and 'basic_string<' in cls and a and ('ctext', a[0]) in S.mon:
            S.mem[obj] = S.mon[('ctext', a[0])]; return [(S, None)]
        if nm == 'assign' and 'basic_string<' in cls and len(a) == 1 and ('ctext', a[0]) in S.mon:
            S.mem[obj] = S.mon[('ctext', a[0])]; return [(S, ('L', obj))]
        if info.get('ctor') and strip_targs(cls) in ('boost::asio::const_buffer', 'boost::asio::const_buffers_1', 'boost::asio::mutable_buffer', 'boost::asio::mutable_buffers_1') and len(a) == 2:
            v = ('app', 'mem', sc(a[0]), sc(a[1])); TAG[v] = 'o'
            S.mem[obj] = v; return [(S, None)]
        # text streams
        st = obj if self.stream(obj, cls) else None
        if info.get('ctor') and 'stringstream' in cls:
            S.mem[obj] = ('str', ''); return [(S, None)]
        if st is not None and nm == 'str':
            if not a: return [(S, E.tmp(S, fr, nid, E.content(S, st)))]
            v = sc(a[0])
            if isinstance(v, tuple) and v[0] == 'strp': v = ('str', v[1].rstrip('\0'))
            S.mem[st] = v; return [(S, 0)]
        if ext and nm == 'operator<<':
            o, x = (obj, a[0]) if obj is not None else (a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'L' else None, a[1] if len(a) > 1 else None)
            if o is not None and (o[0] == 'f' and str(o[2]).endswith('m_content_stream') or ('ss', o) in S.mon or 'basic_o' in cls or 'basic_ostream' in ' '.join(n.get('pt') or ())):
                v = sc(x)
                if isinstance(v, tuple) and v[0] == 'strp': v = ('str', v[1].rstrip('\0'))
                if isinstance(v, tuple) and v[:1] == ('L',) or 'hex' in str(v)[:60] and not isinstance(v, int) and v[0] != 'str':
                    S.mon[('base', o)] = 'hex' if 'hex' in str(v) else 'dec'
                    if 'hex' not in str(v): S.mem[o] = E.cat(E.content(S, o), app('manip', v))
                    return [(S, ('L', o))]
                if isinstance(v, tuple) and v[0] == 'cat' or TAG.get(v) == 'str' or isinstance(v, tuple) and v[0] == 'str': t = v
                else: t = app(S.mon.get(('base', o), 'dec') if isinstance(v, int) or TAG.get(v) and TAG[v][0] == 'i' or v[0] == 'lin' else 'shown', v)
                S.mem[o] = E.cat(E.content(S, o), t)
                return [(S, ('L', o))]
        # the connection
        if cls.startswith('pion::tcp::connection'):
            if nm == 'is_open': return [(S, app('open', tag=BOOL))]
            if nm == 'async_write':
                self.ev(S, 'write', obj, tuple(self.piece(E, S, i) for i in self.entries(S, 'wb')[0]), sc(a[1]), self.state(E, S)[0])
                return [(S, 0)]
        # the message
        if obj == E.deref(MSG):
            if nm == 'prepare_buffers_for_send':
                c = [sc(x) for x in a[1:]]
                sup = E.content(S, ('f', obj, M + 'm_chunks_supported'))
                self.ev(S, 'headers', c[0], c[1], E.content(S, ('f', obj, M + 'm_content_length')), sup, self.state(E, S)[0])
                i = S.mon.get('nextent', 1); S.mon['nextent'] = i + 1
                self.put(S, 'wb', self.entries(S, 'wb')[0] + (i,), False, ())
                S.mem[ent(i)] = app('hdr', tag='o')
                return [(S, 0)]
        if obj == this and nm == 'finished_writing' and n.get('inroot') and getattr(self, 'opaque_finish', True):
            self.ev(S, 'finished', sc(a[0]), boolof(E, sc(a[0]))); return [(S, 0)]
        if ext and cls.startswith('boost::function') and nm == 'operator()' and obj is not None and obj[0] == 'f':
            self.ev(S, obj[2].rsplit('::', 1)[-1], *[sc(x) for x in a]); return [(S, 0)]
        if nm == 'make_error_code' and len(a) == 1: return [(S, E.tmp(S, fr, nid, app('code', sc(a[0]), tag='o')))]
        return CH.call(self, E, S, fr, n, info)

    def delete(self, E, S, fr, p, n):
        if p != 0: self.ev(S, 'delete', p)

    def piece(self, E, S, i):
        """(what the buffer holds now, whether that memory is still there)"""
        b = E.content(S, ent(i))
        if isinstance(b, tuple) and b[:2] == ('app', 'buf'):
            l = b[2]
            root = l
            while isinstance(root, tuple) and root[0] == 'f': root = root[1]
            own = root[:2] == ('o', 'ent') and not S.mon.get(('erased', root[2])) and any(root[2] in self.entries(S, m)[0] for m in ('tc',))
            return (E.content(S, l), own or root[0] in ('g',) or l[0] == 'd' or root in self.params_ or root[0] == 'd')
        return (b, True)


def tokens(l):
    """known text, unknown text and blocks of memory, adjacent known text joined, empty text dropped"""
    out = []
    for t in l:
        for x in (t[1:] if isinstance(t, tuple) and t[0] == 'cat' else (t,)):
            if x == ('str', ''): continue
            if x[:2] == ('app', 'mem') and isinstance(x[2], tuple) and x[2][:2] == ('app', 'c_str') and x[3] == ('app', 'size', x[2][2]): x = x[2][2]
            if out and x[0] == 'str' and out[-1][0] == 'str': out[-1] = ('str', out[-1][1] + x[1])
            else: out.append(x)
    return out


def states(H, E, S, k, pend, supports, chunking, sent, cached=1):
    """k buffered pieces (a copied block, a text of the cache, ...) and maybe text still in the stream; returns (pieces, text)"""
    f = lambda x: ('f', this, W + x)
    bc, tc = [], []
    parts, total = [], 0
    H.fill(S, 'tc', cached); H.fill(S, 'bc', 0); H.fill(S, 'wb', 0)
    for i in H.entries(S, 'tc')[0]: S.mem[ent(i)] = ('str', 'old')
    cb = []
    for j in range(k):
        i = S.mon['nextent']; S.mon['nextent'] = i + 1
        if j % 2 == 0:
            p, ln = app('block', j, tag='p'), app('block length', j, tag=I64)
            S.setint(p, ((1 << 12, 1 << 46),)); S.setint(ln, ((1, 1 << 20),))
            S.mem[ent(i)] = ('app', 'mem', p, ln); TAG[S.mem[ent(i)]] = 'o'
            parts.append(S.mem[ent(i)])
            q = S.mon['nextent']; S.mon['nextent'] = q + 1
            S.mem[('f', ent(q), FIRST)], S.mem[('f', ent(q), SECOND)] = p, ln
            bc.append(q)
        else:
            t = init(('text', j), 'str')
            q = S.mon['nextent']; S.mon['nextent'] = q + 1
            S.mem[ent(q)] = t; tc.append(q)
            ln = E.size_of(t); S.setint(ln, ((1, 1 << 20),))
            S.mem[ent(i)] = ('app', 'buf', ent(q)); TAG[S.mem[ent(i)]] = 'o'
            parts.append(t)
        total = add(total, ln)
        cb.append(i)
    H.put(S, 'cb', cb, False, ()); H.put(S, 'bc', bc, False, ()); H.put(S, 'tc', H.entries(S, 'tc')[0] + tuple(tc), False, ())
    txt = ('str', '')
    if pend == 2:
        txt = init(('pending',), 'str')
        S.setint(E.size_of(txt), ((1, 1 << 20),))
    S.mem[f('m_content_stream')] = txt
    S.mem[f('m_stream_is_empty')] = int(pend == 0)
    S.mem[f('m_content_length')] = total
    S.mem[f('m_client_supports_chunks')], S.mem[f('m_sending_chunks')], S.mem[f('m_sent_headers')] = supports, chunking, sent
    S.mem[f('m_tcp_conn')] = CONNP
    S.setint(CONNP, ((1 << 12, 1 << 46),)); S.setint(MSG, ((1 << 12, 1 << 46),))
    for r, x in FIELD.items(): S.mem[('f', this, r + '::' + x)] = MSG
    S.mon['start'] = tuple(parts), txt, total


def after(H, E, s):
    """content of the writer at this point: tokens, sum of the sizes, all alive"""
    ps = [H.piece(E, s, i) for i in H.entries(s, 'cb')[0]]
    txt = E.content(s, ('f', this, W + 'm_content_stream'))
    tot = 0
    for v, _ in ps: tot = add(tot, v[3] if v[:2] == ('app', 'mem') else E.size_of(v))
    return tokens([v for v, _ in ps] + [txt]), tot, all(ok for _, ok in ps), txt


def content(prog, R):
    """write, write_no_copy, clear"""
    total = 0
    f1 = lambda x: ('f', this, W + x)
    ops = []
    for nm in ('write', 'write_no_copy', 'clear'):
        seen = set()
        for f in prog.by_name.get(W + nm, []):
            if 'blocks' not in f: continue
            ts = tuple(t for t, l in params(f))
            if ts in seen: continue
            seen.add(ts); ops.append((nm, f, ts))
    if not {o[0] for o in ops} >= {'write', 'write_no_copy', 'clear'}: raise AnalysisError("writer operations not found")
    for nm, f, ts in ops:
        two = len(ts) == 2
        if nm == 'write' and not two and not ('basic_string' in ts[0] or ts[0].startswith(('std::string', 'const std::string', 'const int', 'int')) or '(*)' in ts[0]) : continue
        for k in (0, 1, 2):
            for pend in (0, 1, 2):
                for ln in ((0, 1) if two or nm == 'write_no_copy' else (1,)):
                    H = WH(R); E = Engine(prog, H)
                    ps = params(f)
                    def setup(E, S, fr):
                        states(H, E, S, k, pend, 1, 1, 1)
                        if two:
                            p = init(ps[0][1], 'p'); S.setint(p, ((1 << 12, 1 << 46),))
                            set_arg(S, fr, f, 0, p)
                            if ln:
                                x = init(ps[1][1], I64); S.setint(x, ((1, 1 << 20),)); set_arg(S, fr, f, 1, x)
                            else: set_arg(S, fr, f, 1, 0)
                        elif ps and 'basic_string' in ts[0] or ps and 'std::string' in ts[0]:
                            x = init(('data',), 'str') if ln else ('str', '')
                            if ln: S.setint(E.size_of(x), ((1, 1 << 20),))
                            set_arg(S, fr, f, 0, x)
                    H.params_ = tuple(l for t, l in ps if t.rstrip().endswith('&'))
                    fr, ex = E.entry(f, this=this, setup=setup)
                    R.engine(E)
                    ex = [x for x in ex if x[0] in ('ret', 'throw')]
                    if not ex: raise AnalysisError("%s has no exit" % nm)
                    for kind, s, v in ex:
                        total += 1
                        parts, txt, tot0 = s.mon['start']
                        got, tot, alive, pending = after(H, E, s)
                        def ob(kk, ok, msg): R.ob("%s:%s" % (nm, kk), ok, where(f), msg, dict(arguments=ts, pieces=k, pending=pend, length=ln, holds=[str(x)[:120] for x in got], events=[str(e)[:150] for e in evs(s)], path=s.path()))
                        ob('returns', kind == 'ret', "throws")
                        if kind != 'ret': continue
                        for e in evs(s):
                            if e[0] == 'bad': ob('safe', False, e[1])
                        L = E.content(s, f1('m_content_length'))
                        ob('length', L == tot or sub(L, tot) == 0, "the content length does not equal the sum of the buffered pieces (%s, %s)" % (str(L)[:80], str(tot)[:80]))
                        ob('flag', pending == ('str', '') or not E.content(s, f1('m_stream_is_empty')), "text is pending but the stream counts as empty: it would never be sent")
                        ob('headers', all(E.content(s, f1(x)) == 1 for x in ('m_sent_headers', 'm_client_supports_chunks', 'm_sending_chunks')), "adding or dropping content changes how the message is sent")
                        if nm == 'clear':
                            ob('empty', not got and L == 0, "content is left over and would be sent again")
                            ob('text cache', not H.entries(s, 'tc')[0] and not H.entries(s, 'bc')[0], "keeps the copies of content it has dropped")
                            dl = [e[1] for e in evs(s) if e[0] == 'delete']
                            own = [p[2] for p in parts if p[:2] == ('app', 'mem')]
                            ob('freed', sorted(map(str, dl)) == sorted(map(str, own)), "the copied blocks must be released exactly once (%d of %d)" % (len(dl), len(own)))
                            continue
                        ob('alive', alive, "a buffered piece refers to memory that is gone when it is sent")
                        want = tokens(list(parts) + [txt])
                        if nm == 'write' and not two:
                            x = got[len(want):] if got[:len(want)] == want else None
                            ob('appended', x is not None and len(x) <= 1 and (len(x) == 1 or 'basic_string' in ts[0]), "the text is not appended after what was written before")
                            if x and ('basic_string' in ts[0] or 'std::string' in ts[0]): ob('appended', x[0] == init(('data',), 'str'), "appends another text")
                            continue
                        if not ln:
                            ob('nothing', got == want, "writing nothing changes the content"); continue
                        ob('order', len(got) == len(want) + 1 and got[:-1] == want, "the piece is not added after everything written before (it overtakes pending text, or text is lost)")
                        if len(got) != len(want) + 1: continue
                        x = got[-1]
                        if not two: ob('piece', x == init(('data',), 'str'), "adds another text"); continue
                        p, n_ = init(ps[0][1], 'p'), init(ps[1][1], I64)
                        ob('size', x[:2] == ('app', 'mem') and x[3] == n_, "adds a piece of another size")
                        if x[:2] != ('app', 'mem'): continue
                        if nm == 'write_no_copy': ob('piece', x == ('app', 'mem', p, n_), "adds other memory"); continue
                        cp = [e for e in evs(s) if e[0] == 'memcpy']
                        ob('copied', x[2] != p and len(cp) == 1 and cp[0][1:] == (x[2], p, n_), "does not keep a copy of the caller's bytes")
                        keeps = [E.content(s, ('f', ent(i), FIRST)) for i in H.entries(s, 'bc')[0]]
                        ob('kept', keeps.count(x[2]) == 1, "the copy must be owned by the writer exactly once")
    return total


def sends(prog, R):
    """send, send_chunk, send_final_chunk in every state"""
    total = 0
    f1 = lambda x: ('f', this, W + x)
    ops, seen = [], set()
    for nm in ('send', 'send_chunk', 'send_final_chunk'):
        for f in prog.by_name.get(W + nm, []):
            if 'blocks' in f and (nm, len(f['params'])) not in seen:
                seen.add((nm, len(f['params']))); ops.append((nm, f))
    if len(ops) != 5: raise AnalysisError("writer's send functions not found")
    for nm, f in ops:
        own = not f['params']
        for real in REAL:
            for k, pend in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (2, 2)):
                for sup in (0, 1):
                    for chunking in (0, 1):
                        if nm == 'send' and chunking: continue            # a message is sent whole or in chunks
                        for sent in (0, 1):
                            if nm == 'send' and sent: continue
                            if (k, pend) not in ((0, 0), (2, 2)) and real == REAL[1]: continue
                            H = WH(R, real); E = Engine(prog, H)
                            h = None if own else init(params(f)[0][1], 'o')
                            def setup(E, S, fr): states(H, E, S, k, pend, sup, chunking, sent)
                            fr, ex = E.entry(f, this=this, setup=setup)
                            R.engine(E)
                            ex = [x for x in ex if x[0] in ('ret', 'throw')]
                            if not ex: raise AnalysisError("%s has no exit" % nm)
                            for kind, s, v in ex:
                                total += 1
                                l = [e for e in evs(s) if e[0] in ('headers', 'write', 'finished', 'bad')]
                                parts, txt, tot = s.mon['start']
                                def ob(kk, ok, msg): R.ob("%s:%s" % (nm, kk), ok, where(f), msg, dict(writer=real, pieces=k, pending=pend, supports=sup, chunking=chunking, headers_sent=sent, events=[str(e)[:400] for e in l], path=s.path()))
                                ob('returns', kind == 'ret', "throws")
                                if kind != 'ret': continue
                                for e in l:
                                    if e[0] == 'bad': ob('safe', False, e[1])
                                op = fact(E, s, app('open', tag=BOOL))
                                ob('checks', op is not None, "does not look whether the connection is still open")
                                N = [e[0] for e in l]
                                if not op:
                                    ob('lost', N.count('finished') == 1 and 'write' not in N and l[N.index('finished')][2] == 1, "a message for a connection that is closed must be finished once, with an error, and not written")
                                    continue
                                ob('once', N.count('write') == 1 and 'finished' not in N, "must write exactly once and leave finishing to the handler")
                                if N.count('write') != 1: continue
                                w = l[N.index('write')]
                                ob('connection', w[1] == E.deref(CONNP), "writes to another connection")
                                if own:
                                    t = str(w[3])
                                    ob('handler', 'handle_write' in t and 'placeholders::error' in t or 'lambda' in t, "the write does not continue in handle_write")
                                    ob('kept alive', 'shared_from_this' in t or 'shared_ptr' in t or 'lambda' in t, "the writer is not kept alive until the write ends")
                                else: ob('handler', w[3] == h, "the caller's handler is not the one that is called")
                                ob('headers', N.count('headers') == int(not sent) and (sent or N.index('headers') < N.index('write')), "the headers must be sent exactly once, before any content")
                                ob('remember', E.content(s, f1('m_sent_headers')) == 1, "forgets that the headers have been sent: they would be sent again in the middle of the content")
                                chunks = nm != 'send'
                                if not sent and 'headers' in N:
                                    hd = l[N.index('headers')]
                                    ob('announced', hd[2] == int(chunks), "the headers announce another transfer encoding than the one used")
                                    framed = bool(chunks and sup)
                                    te = E.assume(s.copy(), E.mkcmp(s, '!=', hd[4], 0), framed if chunks else True) if not isinstance(hd[4], int) else (bool(hd[4]) == framed or None)
                                    if chunks: ob('encoding', not isinstance(hd[4], tuple) and bool(hd[4]) == framed, "whether Transfer-Encoding: chunked is sent does not agree with whether the content is sent in chunks")
                                    full = add(tot, E.size_of(txt)) if txt != ('str', '') else tot
                                    if isinstance(full, int) and full == 0: ob('content length', True, '')
                                    else: ob('content length', chunks or hd[3] == full or sub(hd[3], full) == 0, "the announced length is not the length of the content")
                                if chunks and not sup and nm == 'send_chunk':
                                    import_ = prog_close(prog)
                                    ob('closes', w[4] == import_ and (sent or 'headers' not in N or l[N.index('headers')][5] == import_), "chunks for a peer that does not understand them end with the connection, which must be set to close before the headers are made")
                                full = add(tot, E.size_of(txt)) if txt != ('str', '') else tot
                                body = list(parts) + [txt]
                                want = [] if sent else [app('hdr', tag='o')]
                                if isinstance(full, int) and full == 0: body = []
                                if chunks and sup:
                                    if body: want += [app('hex', full), ('str', '\r\n')] + body + [('str', '\r\n')]
                                    if nm == 'send_final_chunk': want += [('str', '0\r\n\r\n')]
                                else: want += body
                                got = tokens([x for x, _ in w[2]])
                                ob('wire', got == tokens(want), "sends %s, not %s" % (str(got)[:300], str(tokens(want))[:300]))
                                ob('alive', all(a for _, a in w[2]), "a buffer refers to memory that is gone when it is sent")
                                g2, t2, al, pending = after(H, E, s)
                                ob('kept', al, "content is released before it has been sent")
    return total


def prog_close(prog):
    from .auth import prog_const
    return prog_const(prog, CN + 'LIFECYCLE_CLOSE', 0)


def completes(prog, R):
    """handle_write and finished_writing"""
    total = 0
    for real in REAL:
        f = meth(prog, real + '::handle_write')
        for chunking in (0, 1):
            H = WH(R, real); E = Engine(prog, H)
            def setup(E, S, fr): states(H, E, S, 1, 0, 1, chunking, 1)
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ec = init(params(f)[0][1], 'o')
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("handle_write has no exit")
            for kind, s, v in ex:
                total += 1
                l = [e for e in evs(s) if e[0] in ('finished', 'write', 'headers')]
                def ob(kk, ok, msg): R.ob("handle_write:" + kk, ok, where(f), msg, dict(writer=real, events=[str(e)[:200] for e in l], path=s.path()))
                ob('returns', kind == 'ret', "throws")
                ob('finished', [e[0] for e in l] == ['finished'] and l[0][1] == ec, "the end of the write must be reported exactly once, with its result")
    f = meth(prog, W + 'finished_writing')
    H = WH(R); H.opaque_finish = False
    E = Engine(prog, H)
    fr, ex = E.entry(f, this=this, setup=lambda E, S, fr: states(H, E, S, 0, 0, 1, 0, 1))
    R.engine(E)
    ec = init(params(f)[0][1], 'o')
    hh = ('f', this, W + 'm_finished')
    for kind, s, v in [x for x in ex if x[0] in ('ret', 'throw')]:
        total += 1
        l = [e for e in evs(s) if e[0] == 'm_finished']
        b = boolof(E, E.content(s, hh))
        st = b if isinstance(b, int) else fact(E, s, b)
        R.ob('finished_writing', kind == 'ret' and (len(l) == 1 and l[0][1] == ec if l else not st), where(f), "the handler given for the message must be called exactly once with the result", dict(events=[str(e)[:200] for e in l], path=s.path()))
    return total


def creates(prog, R):
    """a writer made for a message sends exactly the content the message holds"""
    total = 0
    f1 = lambda x: ('f', this, W + x)
    BUF = ('f', E_deref(MSG), M + 'm_content_buf')
    PTR, LEN = ('f', BUF, M + 'content_buffer_t::m_ptr'), ('f', BUF, M + 'content_buffer_t::m_len')
    for real in REAL:
        short = real.rsplit('::', 1)[1]
        fs = [f for f in prog.by_name.get(real + '::' + short, []) if 'blocks' in f and any('shared_ptr<pion::http::re' in t.replace('class ', '') or '_ptr' in t and 'http::re' in t for t, l in params(f))]
        if not fs: raise AnalysisError("no constructor of %s for a message" % short)
        f = fs[0]
        for L, C in ((0, 0), (0, 3), (3, 3), (3, 0), (1, 1)):
            H = WH(R, real); E = Engine(prog, H)
            p = app('content', tag='p')
            def setup(E, S, fr):
                S.setint(MSG, ((1 << 12, 1 << 46),)); S.setint(p, ((1 << 12, 1 << 46),))
                for i, (t, l) in enumerate(params(f)):
                    if 'http::re' in t: set_arg(S, fr, f, i, MSG)
                    elif 'connection' in t: set_arg(S, fr, f, i, CONNP)
                S.mem[('f', E.deref(MSG), M + 'm_content_length')] = L
                S.mem[PTR], S.mem[LEN] = p, C
                H.fill(S, 'cb', 0); H.fill(S, 'tc', 0); H.fill(S, 'bc', 0); H.fill(S, 'wb', 0)
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("the constructor of %s has no exit" % short)
            for kind, s, v in ex:
                total += 1
                got = [H.piece(E, s, i)[0] for i in H.entries(s, 'cb')[0]]
                def ob(kk, ok, msg): R.ob("%s:%s" % (short, kk), ok, where(f), msg, dict(announced=L, held=C, buffered=[str(x)[:200] for x in got], path=s.path()))
                ob('returns', kind == 'ret', "throws")
                if kind != 'ret': continue
                want = [('app', 'mem', p, L)] if L and C >= L else []
                ob('content', got == want, "content length %d, %d bytes held: the writer sends %s" % (L, C, str(got)[:150]))
                ob('length', E.content(s, f1('m_content_length')) == (L if want else 0), "counts another length than it sends")
                ob('connection', E.content(s, f1('m_tcp_conn')) == CONNP, "sends over another connection")
                ob('message', E.content(s, ('f', this, real + '::' + FIELD[real])) == MSG, "sends another message's headers")
                ob('fresh', E.content(s, f1('m_sent_headers')) == 0 and E.content(s, f1('m_sending_chunks')) == 0 and E.content(s, f1('m_stream_is_empty')) == 1, "a new writer does not start with its headers unsent")
    return total


def E_deref(p): return ('d', p)


def c26(prog, R, tier):
    R.rule("every operation of http::writer is interpreted abstractly over writers holding up to two buffered pieces (copied blocks and cached text of arbitrary content and length) and pending text: the operation leaves exactly the earlier content followed by the new piece, with its length counted; every send, in every state of headers, chunking and peer support, writes exactly the specified sequence of buffers, each referring to memory that is still owned")
    R.assumptions += ["std::list keeps its elements in place", "boost::asio calls a completion handler exactly once", "memory given to write_no_copy stays valid until the message is sent (documented)"]
    c = [('content operations', content(prog, R)), ('sends', sends(prog, R)), ('completions', completes(prog, R)), ('constructions', creates(prog, R))]
    for k, v in c: R.count(k, v)
    R.floor('exits examined', sum(v for k, v in c), 100)
