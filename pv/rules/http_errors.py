"""C05 reads stay inside the input, C06 limits on every accumulated text, C07 failures and their error codes."""
import itertools
from ..load import AnalysisError, strip_targs
from ..eng import Engine, Hooks, add, sub, TAG, lin, subterms
from ..step import run, retval, error_of, content, byte, BUF, size_range
from ..report import where
from .httpmsg import Scen, P, M, param, params, evs, names
from . import http_headers as HD, http_chunks as CH, http_body as BD
from .http_body import fl, le, same, nums, AV, REM, READ, MX, BIG, CONT, Body

this = ('o', 'this')


class Reads(object):
    """collects reads of the input buffer that are not provably inside it"""
    size = 0

    def inside(self, E, S, lo, ln):
        hi = add(lo, ln)
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(self.size, int):
            return 0 <= lo <= hi <= self.size or ln == 0
        if lo != 0 and not (isinstance(lo, int) and lo >= 0 or le(E, S, 0, lo)): return False
        return le(E, S, hi, self.size)

    def note(self, E, S, p, ln, n):
        c, d = lin(p)
        if BUF not in d: return
        self.total = getattr(self, 'total', 0) + 1
        if not self.inside(E, S, sub(p, BUF), ln):
            if not hasattr(self, 'out'): self.out = {}
            self.out.setdefault("reads %s byte(s) at offset %s of an input of %s bytes" % (ln if isinstance(ln, int) else 'unchecked', sub(p, BUF) if isinstance(sub(p, BUF), int) else 'unchecked', self.size if isinstance(self.size, int) else 'n'), S.path())

    def read(self, E, S, fr, loc, val, n):
        if loc[0] == 'd': self.note(E, S, loc[1], 1, n)

    def range_read(self, E, S, fr, n, p, ln): self.note(E, S, p, ln, n)


class HReads(Reads, HD.HH): pass
class CReads(Reads, CH.HH): pass


class BReads(Reads, Body):
    def block_access(self, E, S, fr, n, sfn, a):
        if 'memset' not in sfn:
            x = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x for x in a[:3]]
            if len(x) > 2: self.note(E, S, x[1], x[2], n)
        Body.block_access(self, E, S, fr, n, sfn, a)

    def call(self, E, S, fr, n, info):
        if (info['cls'] or '').startswith('boost::function') and info['nm'] == 'operator()' and len(info['args']) == 2:
            x = info['args']
            self.note(E, S, x[0], x[1], n)
        if info['sfn'] == 'std::copy' and len(info['args']) == 3:
            a = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else x for x in info['args']]
            self.note(E, S, a[0], sub(a[1], a[0]), n)
        return Body.call(self, E, S, fr, n, info)


def bounds(prog, R, tier):
    R.rule("every read of the input by the header parser, the chunk parser and the content readers, from every state and for every next byte, lies between the read position and the end of the input, and none of them leaves the read position beyond the end; the functions that move the read position are exactly those analysed")
    seen = set()
    total = 0

    def report(key, f, H, ex, E, desc, k):
        nonlocal total
        total += getattr(H, 'total', 0)
        for m, path in getattr(H, 'out', {}).items(): R.ob(key, False, where(f), "%s: %s" % (desc, m), path)
        for kind, S, v in ex:
            if kind == 'throw': continue
            p = sub(E.read(S, fl('m_read_ptr'), 'p'), BUF)
            ok = isinstance(p, int) and isinstance(k, int) and 0 <= p <= k or not (isinstance(p, int) and isinstance(k, int)) and (p == 0 or le(E, S, 0, p)) and le(E, S, p, k)
            rv = retval(E, S, v)
            R.ob(key, ok or rv == 0, where(f), "%s: leaves the read position at offset %s of %s" % (desc, p, k), S.path() if not ok else None)
    f = prog.one(P + 'parse_headers')
    en = prog.enum(P + 'header_parse_state_t')
    msg = param(f, 'message')
    for name, req, k, raw in itertools.product(sorted(en), (0, 1), (0, 1, 2), (0, 1)):
        H = HReads(); H.size = k
        E, fr, ex = run(prog, f, k, {'m_headers_parse_state': en[name], 'm_is_request': req, 'm_save_raw_headers': raw}, H, cls=P)
        R.engine(E)
        seen |= {x for v in E.stats.values() if isinstance(v, set) for x in v}
        report('headers:%s' % name, f, H, ex, E, "in state %s with %d bytes" % (name, k), k)
        if k == 0: R.ob('headers:%s' % name, all(retval(E, S, v) == 2 for kind, S, v in ex if kind != 'throw'), where(f), "an empty input is a verdict")
    f = prog.one(P + 'parse_chunks')
    en = prog.enum(P + 'chunk_parse_state_t')
    for name, handler, k in itertools.product(sorted(en), (0, 1), (0, 1, 2)):
        class H_(CReads):
            def call(self, E, S, fr, n, info):
                nm = info['nm'] or ''
                if (info['cls'] or '').startswith('boost::function') and info['obj'] == fl('m_payload_handler'):
                    if nm == 'operator()' and len(info['args']) == 2: self.note(E, S, info['args'][0], info['args'][1], n)
                    elif nm in ('empty', 'operator!'): return [(S, int(not handler))]
                    elif nm.startswith('operator '): return [(S, int(handler))]
                return CH.HH.call(self, E, S, fr, n, info)
        H = H_(); H.size = k

        def extra(E, S, fr):
            r0, rem = ('init', fl('m_bytes_read_in_current_chunk')), ('init', ('o', 'rem'))
            TAG[r0] = TAG[rem] = ('i', 64, False)
            S.mem[fl('m_bytes_read_in_current_chunk')] = r0
            S.setint(r0, ((0, 1 << 40),)); S.setint(rem, ((1, 1 << 40),))
            if name == 'PARSE_CHUNK': S.mem[fl('m_size_of_current_chunk')] = add(r0, rem)
            S.mem[fl('m_max_content_length')] = CH.MAX
        E, fr, ex = run(prog, f, k, {'m_chunked_content_parse_state': en[name]}, H, cls=P, extra=extra)
        R.engine(E)
        seen |= {x for v in E.stats.values() if isinstance(v, set) for x in v}
        report('chunks:%s' % name, f, H, ex, E, "in state %s with %d bytes" % (name, k), k)
    f = prog.one(P + 'consume_content')
    for handler in (0, 1):
        H = BReads(handler=handler, calls={'get_content': lambda E, S, i: CONT}); H.size = AV
        E = Engine(prog, H)

        def setup(E, S, fr):
            nums(S); S.setint(AV, ((0, BIG),))
            for n, v in (('m_read_ptr', BUF), ('m_read_end_ptr', add(BUF, AV)), ('m_bytes_content_remaining', REM), ('m_bytes_content_read', READ), ('m_max_content_length', MX)): S.mem[fl(n)] = v
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        seen |= {x for v in E.stats.values() if isinstance(v, set) for x in v}
        report('content', f, H, ex, E, "content of known length", AV)
    f = prog.one(P + 'consume_content_as_next_chunk')
    for handler, k in itertools.product((0, 1), (0, 1, 2, 3)):
        H = BReads(handler=handler); H.size = k
        E, fr, ex = run(prog, f, k, {'m_max_content_length': 4096}, H, cls=P)
        R.engine(E)
        seen |= {x for v in E.stats.values() if isinstance(v, set) for x in v}
        report('until-eof', f, H, ex, E, "%d bytes without length" % k, k)
    # who moves the read position
    movers = {}
    for f in prog.funcs.values():
        for n in f['nodes']:
            t = assigned(f, n)
            if t and t in (P + 'm_read_ptr', P + 'm_read_end_ptr'): movers.setdefault(f['sfn'], f)
    okm = {P + 'set_read_buffer', P + 'parser', P + 'load_read_pos', P + 'reset'}
    for s, f in sorted(movers.items()):
        R.ob('movers', f['fid'] in seen or s in okm, where(f), "moves the read position but is not one of the analysed readers")
    f = prog.one(P + 'set_read_buffer')
    E = Engine(prog, Hooks())
    fr, ex = E.entry(f)
    pl = [l for t, l in params(f) if t.rstrip().endswith('*')]
    ll = [l for t, l in params(f) if not t.rstrip().endswith('*')]
    if not pl or not ll: raise AnalysisError("set_read_buffer has changed its parameters")
    for kind, S, v in ex:
        a, b = E.read(S, fl('m_read_ptr'), 'p'), E.read(S, fl('m_read_end_ptr'), 'p')
        R.ob('set_read_buffer', a == ('init', pl[0]) and same(E, S, sub(b, a), ('init', ll[0])), where(f), "the read range is not the one given")
    R.count('reads_checked', total)
    R.floor('reads checked', total, 500)
    R.floor('functions moving the read position', len(movers), 4)


def assigned(f, n):
    """member a node assigns or increments"""
    if n['k'] == 'asg' or n['k'] == 'un' and n['op'] in ('++', '--'):
        x = f['nodes'][n['a']]
        while x['k'] == 'cast': x = f['nodes'][x['a']]
        if x['k'] == 'mem': return x['fq']
    return None


def limits(prog, R, tier):
    R.rule("in every header-parser state, the text under construction only grows while it is shorter than its documented maximum, and at the maximum the parser fails with the error that names this text; digits of a chunk size are bounded; the limits themselves are the documented ones")
    n = HD.header_table(prog, R, tier, 'limits')
    R.floor('size situations', len([k for k in R.obs if ':' in k]), 12)
    # the constants
    doc = {'METHOD_MAX': 1024, 'RESOURCE_MAX': 256 * 1024, 'QUERY_STRING_MAX': 1024 * 1024, 'HEADER_NAME_MAX': 1024, 'HEADER_VALUE_MAX': 1024 * 1024,
           'STATUS_MESSAGE_MAX': 1024, 'QUERY_NAME_MAX': 1024, 'QUERY_VALUE_MAX': 1024 * 1024, 'COOKIE_NAME_MAX': 1024, 'COOKIE_VALUE_MAX': 1024 * 1024}
    for k, v in sorted(doc.items()):
        g = prog.globals.get(P + k)
        if not g or 'int' not in g: raise AnalysisError("limit %s not found" % k)
        R.ob('constant:' + k, int(g['int']) == v, k, "%s is %s, documented as %d" % (k, g['int'], v))
    # a chunk size has no more digits than a size can have
    f = prog.one(P + 'parse_chunks')
    en = prog.enum(P + 'chunk_parse_state_t')
    top = 0
    for name in sorted(en):
        E, fr, ex = run(prog, f, 1, {'m_chunked_content_parse_state': en[name], 'm_max_content_length': CH.MAX}, CH.HH(), cls=P)
        for kind, S, v in ex:
            if kind == 'throw' or retval(E, S, v) == 0: continue
            c = content(E, S, fl('m_chunk_size_str'), 1)
            lo, hi = size_range(S, fl('m_chunk_size_str'))
            ok = c is not None and (c[0] != 'init' or not c[1] or hi < 16)
            top += bool(c and c[1])
            R.ob('chunk-size', ok, where(f), "in %s the text of a chunk size grows without limit" % name, S.path() if not ok else None)
    R.ob('chunk-size', top >= 2, where(f), "chunk sizes are not collected as before")


def category(prog, R, cls):
    en = prog.enum(cls + 'error_value_t')
    f = prog.one(cls + 'error_category_t::message')
    texts = {}
    for name, v in sorted(en.items(), key=lambda x: x[1]) + [('(unknown)', 1 << 20)]:
        E = Engine(prog, Hooks())

        def setup(E, S, fr):
            for pv in f['params']: S.mem[('v', fr.id, pv)] = v
        fr, ex = E.entry(f, this=('o', 'cat'), setup=setup)
        R.engine(E)
        t = set()
        for kind, S, rv in ex:
            c = retval(E, S, rv)
            if isinstance(c, tuple) and c[0] in ('str', 'strp'): t.add(c[1])
            else: t.add(None)
        R.ob('%smessage' % cls, len(t) == 1 and None not in t and '' not in t, where(f), "%s has no single message" % name)
        texts.setdefault(next(iter(t), None), []).append(name)
        R.ob('%svalues' % cls, v != 0, where(f), "%s has the value that means success" % name)
    for t, l in texts.items():
        R.ob('%sdistinct' % cls, len(l) == 1, where(f), "%s share the message %r" % (' and '.join(l), t))
    R.ob('%svalues' % cls, len(set(en.values())) == len(en), where(f), "two errors share a value")
    R.floor(cls + ' errors', len(en), 6 if 'spdy' in cls else 18)
    # set_error uses this category and the value it is given
    f = prog.one(cls + 'set_error')
    ecl = param(f, 'error_code')
    vl = [l for t, l in params(f) if 'error_code' not in t]
    E = Engine(prog, Hooks())
    fr, ex = E.entry(f)
    for kind, S, v in ex:
        c = E.content(S, ecl)
        ok = isinstance(c, tuple) and c[:2] == ('app', 'ctor:boost::system::error_code') and len(c) > 3
        val = c[2] if ok else None
        while isinstance(val, tuple) and val[0] in ('cast', 'wrap'): val = val[3]
        ok = ok and val == ('init', vl[0])
        R.ob(cls + 'set_error', ok, where(f), "an error code is not the value given")
        R.ob(cls + 'set_error', ok and ('m_error_category_ptr' in repr(c[3]) and cls[:-2] in repr(c[3])), where(f), "an error does not belong to the parser's own category")


def failing(prog, R):
    """a verdict of false always comes with an error, any other verdict never"""
    def check(key, f, E, ex, ecl, desc):
        for kind, S, v in ex:
            if kind == 'throw': continue
            rv, ge = retval(E, S, v), error_of(E, S, ecl)
            pr = None
            if rv == 0 and (ge[0] != 'err' or ge[1] == 0): pr = "fails without setting an error"
            elif rv in (1, 2) and ge[0] not in ('none', 'cleared'): pr = "sets an error but does not fail"
            elif rv not in (0, 1, 2): pr = "returns %s" % (rv,)
            if ge[0] == 'err': R.ob(key, 'pion::http::parser' in repr(ge[2]), where(f), "%s: the error belongs to another category" % desc)
            R.ob(key, pr is None, where(f), "%s: %s" % (desc, pr), S.path() if pr else None)
        return len(ex)
    n = 0
    f = prog.one(P + 'parse_headers')
    en = prog.enum(P + 'header_parse_state_t')
    for name, req in itertools.product(sorted(en), (0, 1)):
        E, fr, ex = run(prog, f, 1, {'m_headers_parse_state': en[name], 'm_is_request': req, 'm_save_raw_headers': 0}, HD.HH(), cls=P)
        R.engine(E)
        n += check('fails:parse_headers', f, E, ex, param(f, 'error_code'), name)
    f = prog.one(P + 'parse_chunks')
    en = prog.enum(P + 'chunk_parse_state_t')
    for name in sorted(en):
        E, fr, ex = run(prog, f, 1, {'m_chunked_content_parse_state': en[name], 'm_max_content_length': CH.MAX}, CH.HH(), cls=P)
        R.engine(E)
        n += check('fails:parse_chunks', f, E, ex, param(f, 'error_code'), name)
    st = prog.enum(P + 'message_parse_state_t')
    cst = prog.enum(P + 'chunk_parse_state_t')
    for fname in ('finish_header_parsing', 'parse_missing_data'):
        f = prog.one(P + fname)
        lens = [l for t, l in params(f) if t.strip() in ('unsigned long', 'const unsigned long', 'std::size_t')]
        for name in sorted(st) if fname == 'parse_missing_data' else ['PARSE_HEADERS']:
            E = Engine(prog, Body(handler=0, calls={'get_content': lambda E, S, i: CONT, 'create_content_buffer': lambda E, S, i: CONT},
                                  events=('finish', 'compute_msg_status', 'update_message_with_header_data')))

            def setup(E, S, fr):
                nums(S, rem=(0, BIG))
                for pv in f['params']:
                    if lens and S.mem.get(('v', fr.id, pv)) == ('init', lens[0]): S.mem[('v', fr.id, pv)] = 2
                S.mem[fl('m_message_parse_state')] = st[name]
                for a, b in (('m_bytes_content_remaining', REM), ('m_bytes_content_read', READ)): S.mem[fl(a)] = b
                S.mem[fl('m_max_content_length')] = 4096
            fr, ex = E.entry(f, setup=setup)
            R.engine(E)
            n += check('fails:' + fname, f, E, ex, param(f, 'error_code'), name if fname == 'parse_missing_data' else 'after the head')
    f = prog.one(P + 'finish_header_parsing')
    for bad in (0, 1):
        def upd(E, S, info):
            if bad: return [('throw', S, 'boost::bad_lexical_cast')]
            E.write(S, info['fr'], ('f', info['obj'], M + 'm_content_length'), 7)
            return 0
        E = Engine(prog, Body(handler=0, headers={'Content-Length': 1, 'Transfer-Encoding': 0}, calls={'update_content_length_using_header': upd, 'update_transfer_encoding_using_header': 0, 'is_content_length_implied': 0, 'create_content_buffer': lambda E, S, i: CONT},
                              events=('update_message_with_header_data',)))

        def setup(E, S, fr):
            S.mem[('f', param(f, 'http::message'), M + 'm_is_chunked')] = 0
            S.mem[fl('m_max_content_length')] = 4096
        fr, ex = E.entry(f, setup=setup)
        R.engine(E)
        n += check('fails:content-length', f, E, ex, param(f, 'error_code'), 'with a %s content length' % ('malformed' if bad else 'valid'))
        for kind, S, v in ex:
            R.ob('fails:content-length', kind != 'throw' and (retval(E, S, v) == 0) == bool(bad), where(f), "a %s content length is %s" % (('malformed', 'accepted') if bad else ('valid', 'refused')), S.path())
    # parse() passes the error of its parts on
    f = prog.one(P + 'parse')
    ecl = param(f, 'error_code')
    for name in sorted(st):
        for verdict in (0, 2):
            MARK = ('app', 'ctor:boost::system::error_code', 77, ('init', ('o', 'pion::http::parser category')))

            def part(E, S, info):
                if verdict == 0: S.mem[ecl] = MARK
                E.write(S, info['fr'], fl('m_read_ptr'), add(BUF, 1))
                return [(S, E.tmp(S, info['fr'], info['nid'], verdict))]
            E = Engine(prog, Scen(handler=0, calls={k: part for k in ('parse_headers', 'parse_chunks', 'consume_content')}, events=('finish', 'compute_msg_status', 'concatenate_chunks')))

            def setup(E, S, fr):
                S.mem[fl('m_message_parse_state')] = st[name]
                S.mem[fl('m_read_ptr')] = BUF; S.mem[fl('m_read_end_ptr')] = add(BUF, 1)
            fr, ex = E.entry(f, setup=setup)
            R.engine(E)
            n += check('fails:parse', f, E, ex, ecl, name)
    R.count('verdicts_checked', n)
    R.floor('verdicts', n, 300)


def errors(prog, R, tier):
    R.rule("each parser verdict of 'false' comes with a non-zero error code of the parser's own category and no other verdict does; parse() passes it on; every error value has exactly one message, distinct from every other and from the one for unknown values")
    category(prog, R, P)
    category(prog, R, 'pion::spdy::parser::')
    failing(prog, R)
