"""C17 the bytes a message is sent as, C40 name/value dictionaries."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..report import where
from ..maps import Maps, ent, key_loc, val_loc
from .httpmsg import Scen, params, set_arg, evs, names, copied, M
from .httpvalue import this, RQ, RS, bodies, run, init, bind_param, FL, OTHER

DICTS = {M + 'm_headers': 'headers', M + 'm_cookie_params': 'cookies', RQ + 'm_query_params': 'query'}
VECT = 'std::vector<boost::asio::const_buffer'


class DH(Maps, Scen):
    """a message whose dictionaries hold known names and arbitrary values"""
    unroll = 24
    max_states = 6000
    multis = frozenset(DICTS.values())
    real = None            # class whose overriders of the message's virtual functions apply
    isvec = False

    def __init__(self, R=None):
        Scen.__init__(self)
        self.R = R

    def is_map(self, obj):
        if obj[0] == 'f' and obj[1] == this and obj[2] in DICTS: return DICTS[obj[2]]
        if self.isvec: return 'wb'          # the one list of buffers
        return None

    vecs = frozenset(('wb',))

    def key_eq(self, E, S, a, b):
        if a == b: return 1
        if a[0] == 'str' and b[0] == 'str': return int(a[1].lower() == b[1].lower())
        return None

    def virtual(self, E, S, fr, n, inf):
        if self.real and isinstance(inf, dict) and inf['obj'] == this:
            for f in E.prog.by_name.get(self.real + '::' + (n.get('nm') or ''), []):
                if 'blocks' in f and len(f['params']) == len(n.get('args', [])): return f['fid']
        return None

    def call(self, E, S, fr, n, info):
        nm, a, cls, obj = info['nm'] or '', info['args'], info['cls'] or '', info['obj']
        self.isvec = cls.startswith(VECT) and not n.get('inroot')
        if self.isvec and info.get('ctor') and not a:
            self.ev(S, 'list')
            if names(S).count('list') > 1: raise AnalysisError("more than one list of buffers")
            self.fill(S, 'wb', 0)
            return [(S, None)]
        if info['sfn'] == 'boost::asio::buffer' and a:
            x = a[0]
            if len(a) == 1 and isinstance(x, tuple) and x[0] == 'L': v = ('app', 'buf', x[1])
            elif len(a) == 2: v = ('app', 'mem', x if not (isinstance(x, tuple) and x[0] == 'L') else E.content(S, x[1]), E.content(S, a[1][1]) if isinstance(a[1], tuple) and a[1][0] == 'L' else a[1])
            else: return None
            TAG[v] = 'o'
            return [(S, E.tmp(S, fr, info['nid'], v))]
        if info.get('ctor') and strip_targs(cls) in ('boost::asio::const_buffer', 'boost::asio::const_buffers_1', 'boost::asio::mutable_buffers_1') and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'L':
            E.copy_obj(S, fr, obj, a[0][1], n, ev=False)
            return [(S, None)]
        if nm.startswith('operator') and 'const_buffer' in nm and obj is not None:
            return [(S, E.tmp(S, fr, info['nid'], E.content(S, obj)))]
        if info['sfn'] == 'boost::lexical_cast' and a and 'basic_string' in n.get('type', ''):
            v = E.content(S, a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'L' else a[0]
            t = ('str', str(v)) if isinstance(v, int) else ('app', 'dec', v)
            TAG[t] = 'str'
            return [(S, E.tmp(S, fr, info['nid'], t))]
        r = self.first(E, S, fr, n, info)
        if r is not None: return r
        r = self.map_call(E, S, fr, n, info)
        if r is not None: return r
        return Scen.call(self, E, S, fr, n, info)

    def first(self, E, S, fr, n, info): return None


def load(H, E, S, dicts):
    """dicts: {label: [name, ...]} with arbitrary values; equal names adjacent"""
    i = 1
    for lab in ('headers', 'cookies', 'query'):
        ids = []
        for k in dicts.get(lab, ()):
            S.mem[key_loc(i)] = ('str', k)
            v = init(val_loc(i), 'str')
            S.mem[val_loc(i)] = v
            ids.append(i); i += 1
        H.put(S, lab, ids, False, ())
    S.mon['nextent'] = i


def dump(H, E, s, lab): return [(E.content(s, key_loc(i)), E.content(s, val_loc(i))) for i in H.entries(s, lab)[0]]


def bads(s): return [e[1] for e in evs(s) if e[0] == 'bad']


# ---------------------------------------------------------------- C40 dictionaries
def dictionaries(prog, R, tier):
    R.rule("each operation on a message's header, cookie and query dictionaries is interpreted over dictionaries of up to four entries with known names and arbitrary values (including repeated and differently cased names); at each exit the dictionary equals the one the operation defines")
    R.assumptions += ["unordered_multimap keeps equal keys adjacent and its elements in place"]
    nops = 0
    base = [[], ['A'], ['B'], ['a'], ['A', 'a'], ['A', 'A', 'A'], ['B', 'A', 'a'], ['A', 'A', 'B'], ['B', 'A', 'a', 'C'], ['A', 'B', 'C']]
    if tier == 'thorough': base += [['B', 'C', 'A', 'a', 'A', 'D'], ['A', 'a', 'A', 'a', 'A'], ['D', 'B', 'C', 'a']]
    for cls, lab, word in (('pion::http::message', 'headers', 'header'), ('pion::http::message', 'cookies', 'cookie'), ('pion::http::request', 'query', 'query')):
        for op in ('get', 'has', 'add', 'change', 'delete'):
            fs = bodies(prog, '%s::%s_%s' % (cls, op, word), lambda g: len(g['params']) == (2 if op in ('add', 'change') else 1))
            if not fs: raise AnalysisError("no %s::%s_%s" % (cls, op, word))
            f = fs[0]
            nops += 1
            for names_ in base:
                H = DH(R)
                V = ('init', params(f)[1][1]) if len(f['params']) > 1 else None
                if V: TAG[V] = 'str'

                def setup(E, S, fr):
                    load(H, E, S, {lab: names_, ('cookies' if lab == 'headers' else 'headers'): ['A', 'Z']})
                    set_arg(S, fr, f, 0, ('str', 'A'))
                    if V: set_arg(S, fr, f, 1, V)
                E, ex = run(prog, R, H, f, setup)
                tag = '%s_%s' % (op, word)
                if not ex: R.ob(tag + ':returns', False, where(f), "never returns")
                before = [(('str', k), ('init', val_loc(i))) for i, k in enumerate(names_, (1 if lab == 'headers' else 3))]
                for k, s, v in ex:
                    R.ob(tag + ':safe', k == 'ret' and not bads(s), where(f), bads(s) and bads(s)[0] or "throws", s.path())
                    if k != 'ret': continue
                    after = dump(H, E, s, lab)
                    low = lambda e: e[0][1].lower() == 'a' if e[0][0] == 'str' else None
                    mine, rest = [e for e in after if low(e)], [e for e in after if not low(e)]
                    was, others = [e for e in before if low(e)], [e for e in before if not low(e)]
                    R.ob(tag + ':others', rest == others, where(f), "names %s: entries of other names become %s" % (names_, rest), s.path())
                    if op in ('get', 'has'): R.ob(tag + ':reads', after == before, where(f), "a look-up changes the dictionary", s.path())
                    if op == 'get':
                        got = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
                        ref = isinstance(v, tuple) and v[0] == 'L' and v[1][0] not in ('t', 'v')
                        R.ob(tag + ':value', got == (was[0][1] if was else ('str', '')), where(f), "names %s: returns %s" % (names_, got), s.path())
                        R.ob(tag + ':alive', ref, where(f), "returns a reference to a temporary", s.path())
                    if op == 'has': R.ob(tag + ':value', v == int(bool(was)), where(f), "names %s: answers %s" % (names_, v), s.path())
                    if op == 'add': R.ob(tag + ':value', sorted(map(repr, mine)) == sorted(map(repr, was + [(('str', 'A'), V)])), where(f), "names %s: becomes %s" % (names_, mine), s.path())
                    if op == 'change': R.ob(tag + ':value', [e[1] for e in mine] == [V], where(f), "names %s: must leave exactly the new value, leaves %s" % (names_, mine), s.path())
                    if op == 'delete': R.ob(tag + ':value', not mine, where(f), "names %s: leaves %s" % (names_, mine), s.path())
    hashes(prog, R, tier)
    R.count('operations', nops)
    R.floor('operations', nops, 15)


class StrIter:
    """iterators over strings of known text, as pointers into the text"""

    def str_iter(self, E, S, fr, n, info):
        nm, a, obj, cls = info['nm'] or '', info['args'], info['obj'], strip_targs(info['cls'] or '')
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        if n.get('inroot'): return None
        if cls.endswith('basic_string') and obj is not None and nm in ('begin', 'end', 'cbegin', 'cend'):
            t = E.content(S, obj)
            if not (isinstance(t, tuple) and t[0] == 'str'): return None
            p = ('strp', t[1]); TAG[p] = 'p'
            return [(S, E.tmp(S, fr, info['nid'], add(p, len(t[1]) if 'end' in nm else 0)))]
        if '__normal_iterator' in cls or nm.startswith('operator') and '__normal_iterator' in ' '.join(n.get('pt') or ()):
            if info.get('ctor'):
                if a: S.mem[obj] = sc(a[0])
                return [(S, None)]
            v = ([E.content(S, obj)] if obj is not None else []) + [sc(x) for x in a]
            if nm in ('operator==', 'operator!=', 'operator<') and len(v) == 2: return [(S, E.mkcmp(S, nm[8:], v[0], v[1]))]
            if nm in ('operator++', 'operator--'):
                S.mem[obj] = add(v[0], 1 if nm == 'operator++' else -1)
                return [(S, ('L', obj) if not a else E.tmp(S, fr, info['nid'], v[0]))]
            if nm == 'operator*': return [(S, ('L', ('d', v[0])))]
            if nm == 'operator+' and len(v) == 2: return [(S, E.tmp(S, fr, info['nid'], add(v[0], v[1])))]
            if nm == 'operator-' and len(v) == 2:
                r = sub(v[0], v[1])
                return [(S, r if isinstance(r, int) and '*' not in str(n.get('type')) and 'iterator' not in str(n.get('type')) else E.tmp(S, fr, info['nid'], r))]
        return None


class HH(StrIter, Scen):
    unroll = 80
    max_states = 3000

    def call(self, E, S, fr, n, info):
        nm, a = info['nm'] or '', info['args']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        if nm in ('toupper', 'tolower', 'to_upper', 'to_lower') and not n.get('inroot') and a and isinstance(sc(a[0]), int):
            c = sc(a[0])
            if nm.endswith('upper'): return [(S, c - 32 if 97 <= c <= 122 else c)]
            return [(S, c + 32 if 65 <= c <= 90 else c)]
        if nm == 'hash_combine' and len(a) == 2 and isinstance(a[0], tuple) and a[0][0] == 'L':
            v = ('app', 'combine', sc(a[0]), sc(a[1])); TAG[v] = ('i', 64, False)
            S.mem[a[0][1]] = v
            return [(S, 0)]
        if nm in ('iequals', 'equals') and len(a) >= 2 and all(isinstance(sc(x), tuple) and sc(x)[0] == 'str' for x in a[:2]):
            x, y = sc(a[0])[1], sc(a[1])[1]
            return [(S, int(x.lower() == y.lower() if nm == 'iequals' else x == y))]
        if nm in ('to_upper_copy', 'to_lower_copy') and a and isinstance(sc(a[0]), tuple) and sc(a[0])[0] == 'str':
            return [(S, E.tmp(S, fr, info['nid'], ('str', sc(a[0])[1].upper() if 'upper' in nm else sc(a[0])[1].lower())))]
        r = self.str_iter(E, S, fr, n, info)
        return r if r is not None else Scen.call(self, E, S, fr, n, info)


def hashes(prog, R, tier):
    """names that differ only in case must be one key: same hash, and equal"""
    words = ['', 'a', 'ab', 'host', 'x-b_1', 'content-length'] + [chr(c) for c in range(98, 123)] + ['q' + chr(c) for c in (64, 91, 96, 123, 48, 45, 95)]
    pairs = []
    for w in words:
        vs = {w, w.upper(), w.title(), w[:-1] + w[-1:].upper()}
        pairs += [(x, y) for x in sorted(vs) for y in sorted(vs)]
    long = 'x-very-long-header-name-used-by-some-application'
    pairs += [(long, long.upper()), (long.title(), long)]
    neg = [(long, long[:i] + '_' + long[i + 1:]) for i in range(len(long))] + [(long, long + 's')] + [('a', 'b'), ('a', ''), ('', 'a'), ('ab', 'a'), ('a', 'ab'), ('ab', 'ba'), ('host', 'hos_'), ('[', '{'), ('@', '`'), ('a-b', 'a_b'), ('xhost', 'yhost'), ('hosts', 'host')]
    f = bodies(prog, 'pion::ihash::operator()')
    g = bodies(prog, 'pion::iequal_to::operator()')
    if not f or not g: raise AnalysisError("no ihash or iequal_to")
    f, g, memo = f[0], g[0], {}

    def h(w):
        if w in memo: return memo[w]
        E, ex = run(prog, R, HH(), f, lambda E, S, fr: set_arg(S, fr, f, 0, ('str', w)))
        memo[w] = [(k, E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v) for k, s, v in ex]
        return memo[w]
    for x, y in pairs:
        hx, hy = h(x), h(y)
        R.ob('hash:case', len(hx) == 1 and hx == hy and hx[0][0] == 'ret', where(f), "'%s' and '%s' are the same name but hash differently" % (x, y))
    R.ob('hash:spread', len({repr(h(w)) for w in words}) > len(words) // 2, where(f), "the hash ignores the name")
    for x, y in pairs + neg:
        def setup(E, S, fr):
            set_arg(S, fr, g, 0, ('str', x)); set_arg(S, fr, g, 1, ('str', y))
        E, ex = run(prog, R, HH(), g, setup)
        want = int(x.lower() == y.lower())
        R.ob('equal:case', bool(ex) and all(k == 'ret' and v == want for k, s, v in ex), where(g), "'%s' and '%s' compare as %s" % (x, y, [v for k, s, v in ex]))
    R.count('name pairs compared', len(pairs) + len(neg))


# ---------------------------------------------------------------- C17 send
def piece(E, s, v):
    if isinstance(v, tuple) and v[0] != 'str' and E.assume(s.copy(), E.mkcmp(s, '!=', E.size_of(v), 0), True) is None: return ('str', '')
    return v


def wire(E, s, H, R, f, tag):
    """what the list of buffers amounts to at this exit"""
    out = ('str', '')
    for i in H.entries(s, 'wb')[0]:
        b = E.content(s, ent(i))
        if not (isinstance(b, tuple) and b[:2] == ('app', 'buf')): return ('app', 'unknown', b)
        l = b[2]
        root = l
        while root[0] in ('f', 'el', 'd') and isinstance(root[1], tuple) and root[1] and isinstance(root[1][0], str) and root[1][0] in ('f', 'el', 'o', 't', 'v', 'h', 'g'): root = root[1]
        R.ob(tag + ':alive', root[0] not in ('t', 'v') and not (root[:2] == ('o', 'ent') and s.mon.get(('erased', root[2]))), where(f), "a buffer refers to a string that no longer exists when it is sent", s.path())
        out = E.cat(out, piece(E, s, E.content(s, l)))
    return out


def send(prog, R, tier):
    R.rule("prepare_buffers_for_send is interpreted for requests and responses, for every combination of keep-alive, chunking and content-length flags and headers already present: the concatenated buffers are the start line, one line per header and an empty line; Connection, Transfer-Encoding and Content-Length are the ones the flags demand, once each; every buffer refers to a string that outlives the call; send() and write() append exactly the content, and write() writes every buffer once, in order, until the stream fails")
    R.assumptions += ["unordered_multimap keeps its elements in place when others are inserted"]
    n = 0
    f = bodies(prog, M + 'prepare_buffers_for_send')
    if not f: raise AnalysisError("no message::prepare_buffers_for_send")
    f = f[0]
    kp, ch = [i for i, (t, l) in enumerate(params(f)) if 'bool' in t]
    wbp = [i for i, (t, l) in enumerate(params(f)) if 'vector' in t][0]
    WB = ('h', 'wb', 0)
    hdrs = [[], ['X'], ['Connection', 'X'], ['content-length', 'Content-Length', 'X'], ['transfer-encoding', 'CONNECTION', 'connection'], ['Set-Cookie', 'Cookie']]
    cks = [[], ['c'], ['c', 'D']]
    for cls in ('pion::http::request', 'pion::http::response'):
        short = cls.rsplit('::', 1)[1]
        for keep in (0, 1):
            for chunks in (0, 1):
                for sup in (0, 1):
                    for dns in (0, 1):
                        for hd in hdrs:
                            for ck in (cks if keep == sup and not dns else cks[:1]):
                                H = DH(R)
                                H.real = cls

                                def first(E, S, fr, nn, info):
                                    if info['obj'] == this and info['nm'] == 'update_first_line' and nn.get('inroot'):
                                        S.mem[FL] = ('app', 'line'); TAG[S.mem[FL]] = 'str'
                                        return [(S, 0)]
                                    return None
                                H.first = first

                                def setup(E, S, fr):
                                    load(H, E, S, {'headers': hd, 'cookies': ck})
                                    H.fill(S, 'wb', 0)
                                    bind_param(S, fr, f, wbp, WB)
                                    set_arg(S, fr, f, kp, keep); set_arg(S, fr, f, ch, chunks)
                                    S.mem[('f', this, M + 'm_chunks_supported')] = sup
                                    S.mem[('f', this, M + 'm_do_not_send_content_length')] = dns
                                    S.mem[FL] = ('str', '')
                                LEN = ('init', ('f', this, M + 'm_content_length'))
                                E, ex = run(prog, R, H, f, setup)
                                n += 1
                                before = [(('str', k), ('init', val_loc(i))) for i, k in enumerate(hd, 1)]
                                what = "keep_alive=%d using_chunks=%d supported=%d no_length=%d headers=%s" % (keep, chunks, sup, dns, hd)
                                if not ex: R.ob(short + ':returns', False, where(f), "never returns")
                                for k, s, v in ex:
                                    R.ob(short + ':safe', k == 'ret' and not bads(s), where(f), bads(s) and bads(s)[0] or "throws", s.path())
                                    if k != 'ret': continue
                                    after = dump(H, E, s, 'headers')
                                    dec = ('app', 'dec', LEN); TAG[dec] = 'str'
                                    rule = {'connection': ('str', 'Keep-Alive' if keep else 'close')}
                                    if chunks and sup: rule['transfer-encoding'] = ('str', 'chunked')
                                    if not chunks and not dns: rule['content-length'] = dec
                                    for nme in ('connection', 'transfer-encoding', 'content-length'):
                                        got = [x[1] for x in after if x[0][1].lower() == nme]
                                        if nme in rule: R.ob('%s:%s' % (short, nme), got == [rule[nme]], where(f), "%s: %s is sent as %s" % (what, nme, got), s.path())
                                        else: R.ob('%s:%s' % (short, nme), got == [x[1] for x in before if x[0][1].lower() == nme], where(f), "%s: %s is sent as %s" % (what, nme, got), s.path())
                                    oth = [x for x in after if x[0][1].lower() not in ('connection', 'transfer-encoding', 'content-length')]
                                    exp = [x for x in before if x[0][1].lower() not in ('connection', 'transfer-encoding', 'content-length')]
                                    nid = [x for x in oth if x not in exp]
                                    R.ob(short + ':kept', all(x in oth for x in exp) and len(oth) == len(exp) + len(ck), where(f), "%s: other headers become %s" % (what, oth), s.path())
                                    for i, c in enumerate(ck, len(hd) + 1):
                                        val = init(val_loc(i), 'str')
                                        tx = E.cat(E.cat(('str', c), ('str', '=')), val)
                                        nmx = 'Cookie'
                                        if short == 'response':
                                            nmx = 'Set-Cookie'
                                            ok = any(x[0] == ('str', nmx) and cookie_text(x[1], c, val) for x in nid)
                                        else: ok = (('str', nmx), tx) in nid
                                        R.ob(short + ':cookie', ok, where(f), "%s: cookie %s is sent as %s" % (what, c, nid), s.path())
                                    want = E.cat(E.content(s, FL), ('str', '\r\n'))
                                    for kk, vv in after:
                                        for p in (kk, ('str', ': '), piece(E, s, vv), ('str', '\r\n')): want = E.cat(want, p)
                                    want = E.cat(want, ('str', '\r\n'))
                                    got = wire(E, s, H, R, f, short)
                                    R.ob(short + ':first line', E.content(s, FL) == ('app', 'line'), where(f), "the start line is not built", s.path())
                                    R.ob(short + ':wire', got == want, where(f), "%s: sends %s instead of %s" % (what, got, want), s.path())
    payload(prog, R, tier)
    R.count('sends', n)
    R.floor('sends', n, 200)


def cookie_text(t, name, val):
    """name="value"... or name=value..."""
    p = list(t[1:]) if t[0] == 'cat' else [t]
    flat = ''.join(x[1] if x[0] == 'str' else '\1' if x == val else '\2' for x in p if isinstance(x, tuple))
    return flat.startswith(name + '="\1"') or flat.startswith(name + '=\1')


class PH(DH):
    """send/write: the prepared buffers are two unknown ones"""

    def first(self, E, S, fr, n, info):
        nm, a, cls, obj = info['nm'] or '', info['args'], strip_targs(info['cls'] or ''), info['obj']
        if obj == this and nm == 'prepare_buffers_for_send' and n.get('inroot'):
            self.ev(S, 'prepare', *[x for x in a[1:]])
            for k in (0, 1):
                i = S.mon.get('nextent', 1)
                S.mon['nextent'] = i + 1
                self.put(S, 'wb', self.entries(S, 'wb')[0] + (i,), False, ())
                S.mem[ent(i)] = ('app', 'hdr', k); TAG[S.mem[ent(i)]] = 'o'
            return [(S, 0)]
        if cls == 'pion::tcp::connection' and n.get('inroot'):
            if nm == 'get_keep_alive': return [(S, E.sym(fr, 'ka', ('i', 1, False), 'keep-alive'))]
            if nm == 'write':
                self.ev(S, 'write', tuple(E.content(S, ent(i)) for i in self.entries(S, 'wb')[0]), a[0])
                return [(S, E.sym(fr, 'wr', ('i', 64, False), 'written'))]
        if info['sfn'] in ('boost::asio::buffer_cast', 'boost::asio::buffer_size') and a and isinstance(a[0], tuple) and a[0][0] == 'L':
            b = E.content(S, a[0][1])
            t = ('app', 'ptr' if nm == 'buffer_cast' else 'len', b)
            if isinstance(b, tuple) and b[:2] == ('app', 'mem'): t = b[2] if nm == 'buffer_cast' else b[3]
            elif nm == 'buffer_size': TAG[t] = ('i', 64, False); S.setint(t, ((0, 1 << 40),))
            else: TAG[t] = 'p'
            return [(S, t)]
        if cls in ('std::basic_ostream', 'std::basic_ios') and obj is not None and not n.get('inroot'):
            if nm == 'write':
                self.ev(S, 'out', a[0], a[1])
                out = []
                for ok in (1, 0):
                    s2 = S.copy(); s2.mon['ok'] = ok
                    out.append((s2, ('L', obj)))
                return out
            st = S.mon.get('ok', 1)
            if nm in ('operator!', 'fail', 'bad'): return [(S, int(not st))]
            if nm == 'good' or nm.startswith('operator'): return [(S, st)]
        if nm == 'make_error_code':
            self.ev(S, 'error', *a)
            return None
        return None


def payload(prog, R, tier):
    PTR = ('init', ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_ptr'))
    TAG[PTR] = 'p'
    n = 0
    for op in ('send', 'write'):
        f = bodies(prog, M + op)
        if not f: raise AnalysisError("no message::%s" % op)
        f = f[0]
        hp = [i for i, (t, l) in enumerate(params(f)) if t.replace('const ', '') == 'bool'][0]
        for honly in (0, 1):
            for L, C in ((0, 0), (0, 3), (3, 3), (3, 5), (5, 3), (5, 0)):
                H = PH(R)

                def setup(E, S, fr):
                    set_arg(S, fr, f, hp, honly)
                    S.mem[('f', this, M + 'm_content_length')] = L
                    S.mem[('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_len')] = C
                    S.assume_nonnull(PTR) if hasattr(S, 'assume_nonnull') else S.setint(PTR, ((1, (1 << 63)),))
                E, ex = run(prog, R, H, f, setup)
                n += 1
                what = "headers_only=%d content length %d, %d bytes held" % (honly, L, C)
                if not ex: R.ob(op + ':returns', False, where(f), "never returns")
                for k, s, v in ex:
                    R.ob(op + ':safe', k == 'ret' and not bads(s), where(f), bads(s) and bads(s)[0] or "throws", s.path())
                    if k != 'ret': continue
                    es = [e for e in evs(s) if e[0] != 'list']
                    R.ob(op + ':prepares', [e[0] for e in es].count('prepare') == 1 and es[0][0] == 'prepare', where(f), "the headers must be prepared once, first", s.path())
                    bufs = [E.content(s, ent(i)) for i in H.entries(s, 'wb')[0]]
                    want = [('app', 'hdr', 0), ('app', 'hdr', 1)]
                    if not honly and L and C >= L: want.append(('app', 'mem', PTR, L))
                    fits = bufs == want or (not honly and L > C > 0 and len(bufs) == 3 and bufs[:2] == want and bufs[2] == ('app', 'mem', PTR, C))
                    R.ob(op + ':payload', fits, where(f), "%s: sends %s" % (what, bufs), s.path())
                    if op == 'send':
                        w = [e for e in es if e[0] == 'write']
                        R.ob('send:once', len(w) == 1 and list(w[0][1]) == bufs, where(f), "must write the buffers once, complete", s.path())
                        R.ob('send:result', isinstance(v, tuple) and v == E.sym(None, 'wr', ('i', 64, False), 'written') if False else not isinstance(v, int), where(f), "must return what the connection wrote", s.path())
                        ka = es[0][1] if len(es[0]) > 1 else None
                        R.ob('send:keep-alive', not isinstance(ka, int), where(f), "must announce the connection's own keep-alive state", s.path())
                        R.ob('send:not chunked', es[0][2] == 0, where(f), "sends unchunked content as chunked", s.path())
                    else:
                        R.ob('write:not chunked', es[0][2] == 0, where(f), "writes unchunked content as chunked", s.path())
                        o = [e for e in es if e[0] == 'out']
                        exp = [((b[2], b[3]) if b[1] == 'mem' else (('app', 'ptr', b), ('app', 'len', b))) for b in bufs]
                        ok = s.mon.get('ok', 1)
                        got = [tuple(x[1:3]) for x in o]
                        R.ob('write:order', got == exp[:len(got)] and (len(got) == len(exp) or not ok), where(f), "%s: writes %s of %s" % (what, got, exp), s.path())
                        err = any(e[0] == 'error' for e in es)
                        R.ob('write:error', err == (not ok), where(f), "a failing stream must be reported, and only that", s.path())
                        tot = 0
                        for x in (got if ok else got[:-1]): tot = add(tot, x[1])
                        R.ob('write:count', v == tot or sub(v, tot) == 0, where(f), "returns %s, written were %s" % (v, tot), s.path())
    R.count('payload scenarios', n)
    setters(prog, R)
    f = bodies(prog, M + 'check_keep_alive')[0]
    for ver in ((0, 9), (1, 0), (1, 1), (1, 2), (2, 0), (2, 5), (0, 1)):
        for hd in (None, 'close', 'Keep-Alive', ''):
            H = DH(R)

            def setup(E, S, fr):
                load(H, E, S, {'headers': ['Connection'] if hd is not None else ['X']})
                if hd is not None: S.mem[val_loc(1)] = ('str', hd)
                S.mem[('f', this, M + 'm_version_major')], S.mem[('f', this, M + 'm_version_minor')] = ver
            E, ex = run(prog, R, H, f, setup)
            R.ob('check_keep_alive', bool(ex) and all(k == 'ret' and v == int(hd != 'close' and ver >= (1, 1)) for k, s, v in ex), where(f), "HTTP/%d.%d with Connection %s: answers %s" % (ver + (hd, [v for k, s, v in ex])))


def setters(prog, R):
    """set_content: the content is the given bytes"""
    from .httpvalue import VH
    n = 0
    for cls in (M, RQ):
        for f in bodies(prog, cls + 'set_content'):
            H = VH(R)
            two = len(f['params']) == 2
            for size in (0, 1, 7):
                for null in ((0, 1) if two else (0,)):
                    def setup(E, S, fr):
                        if two:
                            set_arg(S, fr, f, 1, size)
                            p = ('init', params(f)[0][1]); TAG[p] = 'p'
                            S.setint(p, ((1, 1 << 63),))
                            set_arg(S, fr, f, 0, 0 if null else p)
                        else: set_arg(S, fr, f, 0, ('str', 'x' * size))
                    E, ex = run(prog, R, H, f, setup)
                    n += 1
                    for k, s, v in ex:
                        tag = '%sset_content' % cls.replace('pion::http::', '')
                        L = E.content(s, ('f', this, M + 'm_content_length'))
                        ln = E.content(s, ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_len'))
                        cp = [e for e in evs(s) if e[0] == 'copy']
                        if two and (null or not size):
                            R.ob(tag + ':ignored', k == 'ret' and not cp, where(f), "an empty or null buffer must leave the content alone", s.path())
                            continue
                        ptr = E.content(s, ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_ptr'))
                        R.ob(tag + ':length', k == 'ret' and L == size and ln == size, where(f), "content of %d bytes: length %s, buffer %s" % (size, L, ln), s.path())
                        R.ob(tag + ':bytes', (not size and all(e[3] == 0 for e in cp)) or (len(cp) == 1 and cp[0][1] == ptr and cp[0][3] == size), where(f), "content of %d bytes: copies %s" % (size, cp), s.path())
    R.count('content scenarios', n)


# ---------------------------------------------------------------- C41 generated text
T_ = 'pion::http::types::'
QP = ('h', 'params', 0)


class GH(DH):
    is_query = False

    def is_map(self, obj):
        if obj == QP: return 'query'
        return DH.is_map(self, obj)

    def first(self, E, S, fr, n, info):
        nm, a, cls = info['nm'] or '', info['args'], strip_targs(info['cls'] or '')
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v
        if info['sfn'] == 'pion::algorithm::url_encode':
            v = ('app', 'urlenc', sc(a[0])); TAG[v] = 'str'
            return [(S, E.tmp(S, fr, info['nid'], v))]
        if nm in self.hide and n.get('inroot'):
            self.ev(S, nm, *[sc(x) for x in a])
            if n.get('type') == 'void': return [(S, 0)]
            v = ('app', nm) + tuple(sc(x) for x in a); TAG[v] = 'str'
            return [(S, E.tmp(S, fr, info['nid'], v))]
        if nm in ('gmtime', 'localtime', 'gmtime_r', 'localtime_r') and not n.get('inroot'):
            out = []
            for ok in (1, 0):
                s2 = S.copy()
                self.ev(s2, nm, *[sc(x) for x in a])
                t = a[0]
                v = E.content(s2, ('d', t)) if not (isinstance(t, tuple) and t[0] == 'addr') else E.content(s2, t[1])
                s2.mon['time'] = v
                p = 0
                if ok:
                    p = a[1] if nm.endswith('_r') else E.sym(fr, info['nid'], 'p', 'tm')
                    if isinstance(p, tuple) and p[0] != 'addr': s2.setint(p, ((1, 1 << 63),))
                    s2.mon['tm'] = p
                out.append((s2, p))
            return out
        if nm in ('strftime', 'std::strftime') and not n.get('inroot'):
            out = []
            for ok in (1, 0):
                s2 = S.copy()
                self.ev(s2, 'strftime', *[sc(x) for x in a])
                s2.mon['buf'] = (a[0], a[1])
                s2.mon['okbuf'] = ok
                if ok:
                    r = E.sym(fr, info['nid'], ('i', 64, False), 'len')
                    s2.setint(r, ((1, 100),))
                else: r = 0
                out.append((s2, r))
            return out
        if nm in ('memcpy', 'memmove') and not n.get('inroot'):
            self.ev(S, 'copy', *[sc(x) for x in a[:3]])
            return [(S, a[0])]
        c = copied(E, S, info)
        if c is not None:
            self.ev(S, 'copy', *c)
            return [(S, c[0])]
        return None

    hide = frozenset()

    def lock(self, E, S, fr, op, m, n): self.ev(S, op, m)


def generated(prog, R, tier):
    R.rule("the text generators are interpreted over symbolic names, values and parameter lists of up to three entries; the text returned is compared with the defined form; the date generator is followed through every outcome of the time functions, with the lock held while the shared time buffer is in use")
    R.assumptions += ["gmtime and strftime behave as POSIX says; url_encode is C21"]
    n = 0
    S_ = lambda l: init(l, 'str')
    # query strings
    f = bodies(prog, T_ + 'make_query_string')[0]
    for cnt in (0, 1, 2, 3) + ((4, 6) if tier == 'thorough' else ()):
        H = GH(R)

        def setup(E, S, fr):
            for i in range(1, cnt + 1): S.mem[key_loc(i)], S.mem[val_loc(i)] = S_(key_loc(i)), S_(val_loc(i))
            for l in ('headers', 'cookies'): H.put(S, l, (), False, ())
            H.put(S, 'query', tuple(range(1, cnt + 1)), False, ())
            S.mon['nextent'] = cnt + 1
            bind_param(S, fr, f, 0, QP)
        E, ex = run(prog, R, H, f, setup)
        n += 1
        for k, s, v in ex:
            want = ('str', '')
            for i in range(1, cnt + 1):
                enc = [('app', 'urlenc', S_(l)) for l in (key_loc(i), val_loc(i))]
                for e in enc: TAG[e] = 'str'
                for p in (('str', '&') if i > 1 else ('str', ''), enc[0], ('str', '='), enc[1]): want = E.cat(want, p)
            got = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
            R.ob('query string', k == 'ret' and got == want and not bads(s), where(f), "%d parameters give %s instead of %s" % (cnt, got, want), s.path())
        if not ex: R.ob('query string', False, where(f), "never returns")
    # Set-Cookie text
    f = bodies(prog, T_ + 'make_set_cookie_header')[0]
    ps = params(f)
    for path in (None, '/', ''):
        for has in (0, 1):
            for age in (0, 1, 3600, 4294967296, (1 << 64) - 1, None):
                H = GH(R)

                def setup(E, S, fr):
                    for i in (0, 1): set_arg(S, fr, f, i, S_(ps[i][1]))
                    if path is None: S.setint(E.size_of(S_(ps[2][1])), ((1, 1 << 40),))
                    set_arg(S, fr, f, 2, S_(ps[2][1]) if path is None else ('str', path))
                    set_arg(S, fr, f, 3, has)
                    if age is not None: set_arg(S, fr, f, 4, age)
                E, ex = run(prog, R, H, f, setup)
                n += 1
                for k, s, v in ex:
                    got = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
                    want = ('str', '')
                    parts = [S_(ps[0][1]), ('str', '="'), S_(ps[1][1]), ('str', '"; Version=1')]
                    if path is None: parts += [('str', '; Path='), S_(ps[2][1])]
                    elif path: parts += [('str', '; Path=' + path)]
                    if has:
                        parts += [('str', '; Max-Age=')]
                        if age is not None: parts.append(('str', str(age)))
                    for p in parts: want = E.cat(want, p)
                    if has and age is None:
                        ok = isinstance(got, tuple) and got[0] == 'cat' and isinstance(got[-1], tuple) and got[-1] == ('app', 'dec', ('init', ps[4][1])) and got[:-1] == want if want[0] == 'cat' else False
                    else: ok = got == want
                    R.ob('cookie text', k == 'ret' and ok, where(f), "path %s, max-age %s: %s instead of %s" % (path, age if has else 'none', got, want), s.path())
                if not ex: R.ob('cookie text', False, where(f), "never returns")
    # dates
    f = bodies(prog, T_ + 'get_date_string')[0]
    H = GH(R)
    E, ex = run(prog, R, H, f)
    n += 1
    seen = set()
    for k, s, v in ex:
        es = evs(s)
        nm = [e[0] for e in es]
        got = E.content(s, v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
        conv = [e for e in es if e[0] in ('gmtime', 'gmtime_r', 'localtime', 'localtime_r')]
        R.ob('date:utc', len(conv) == 1 and conv[0][0].startswith('gm'), where(f), "the date must be converted to GMT, once", s.path())
        if not conv: continue
        t = s.mon.get('time')
        R.ob('date:time', t == ('init', params(f)[0][1]), where(f), "converts %s instead of the given time" % (t,), s.path())
        fm = [e for e in es if e[0] == 'strftime']
        if s.mon.get('tm') is None:
            seen.add('null')
            R.ob('date:null', not fm and empty_text(E, s, got), where(f), "a time that cannot be converted must give an empty text", s.path())
        else:
            R.ob('date:format', len(fm) == 1 and fm[0][4] == s.mon['tm'] and fmt(prog, fm[0][3]) == '%a, %d %b %Y %H:%M:%S GMT', where(f), "must be formatted as '%%a, %%d %%b %%Y %%H:%%M:%%S GMT', is %s" % (fm and fmt(prog, fm[0][3]),), s.path())
            if not fm: continue
            if s.mon['okbuf']:
                seen.add('ok')
                R.ob('date:text', mentions_ptr(got, fm[0][1]), where(f), "returns %s instead of the formatted text" % (got,), s.path())
                size = fm[0][2]
                arr = [x for x in f['vars'] if x['type'].startswith('char[') or x['type'].startswith('char [')]
                R.ob('date:room', isinstance(size, int) and size >= 30 and all(size <= int(x['type'].split('[')[1].rstrip(']')) for x in arr), where(f), "formats into a buffer of another size than it has", s.path())
            else:
                seen.add('fail')
                R.ob('date:failed', empty_text(E, s, got), where(f), "a failed conversion must give an empty text", s.path())
        if conv[0][0] == 'gmtime':
            held, ok = 0, True
            for e in es:
                if e[0] == 'lock': held += 1
                elif e[0] == 'unlock': held -= 1
                elif e[0] in ('gmtime', 'strftime') and not held: ok = False
            i = nm.index('gmtime'); j = nm.index('strftime') if fm else i
            R.ob('date:locked', ok and 'unlock' not in nm[i:j], where(f), "the shared time buffer is used without the lock", s.path())
    R.ob('date:outcomes', seen == {'null', 'ok', 'fail'}, where(f), "outcomes followed: %s" % sorted(seen))
    # cookies set by responses
    for f in bodies(prog, RS + 'set_cookie') + bodies(prog, RS + 'delete_cookie'):
        H = GH(R)
        H.hide = frozenset(('make_set_cookie_header', 'add_header', 'change_header'))
        E, ex = run(prog, R, H, f, lambda E, S, fr: load(H, E, S, {}))
        n += 1
        ps = params(f)
        cont = lambda i: ('init', ps[i][1])
        delete = f['sfn'].endswith('delete_cookie')
        strs = [i for i, (t, l) in enumerate(ps) if 'basic_string' in t]
        ages = [i for i, (t, l) in enumerate(ps) if 'basic_string' not in t]
        for k, s, v in ex:
            mk = [e for e in evs(s) if e[0] == 'make_set_cookie_header']
            hd = [e for e in evs(s) if e[0] in ('add_header', 'change_header')]
            tag = f['sfn'].rsplit('::', 1)[1]
            R.ob(tag + ':header', k == 'ret' and len(mk) == 1 and len(hd) == 1 and hd[0][0] == 'add_header' and hd[0][1] == ('str', 'Set-Cookie') and hd[0][2][:2] == ('app', 'make_set_cookie_header') and hd[0][2][2:] == mk[0][1:], where(f), "must add one Set-Cookie header with the cookie's text: %s" % (hd,), s.path())
            if len(mk) != 1: continue
            m = mk[0][1:]
            val = ('str', '') if delete else cont(strs[1])
            pathi = 1 if delete else 2
            path = cont(strs[pathi]) if len(strs) > pathi else ('str', '/')
            R.ob(tag + ':name', m[0] == cont(strs[0]) and m[1] == val and m[2] == path, where(f), "passes name %s, value %s, path %s" % m[:3], s.path())
            has = m[3] if len(m) > 3 else 0
            age = m[4] if len(m) > 4 else 0
            if delete: R.ob(tag + ':expires', has == 1 and age == 0, where(f), "a deleted cookie must expire at once", s.path())
            elif ages: R.ob(tag + ':age', has == 1 and age == cont(ages[0]), where(f), "the given life time is not sent", s.path())
            else: R.ob(tag + ':session', has == 0, where(f), "a cookie without a life time must not expire", s.path())
    # last-modified and form content
    f = bodies(prog, RS + 'set_last_modified')[0]
    H = GH(R); H.hide = frozenset(('get_date_string', 'change_header', 'add_header'))
    E, ex = run(prog, R, H, f, lambda E, S, fr: load(H, E, S, {}))
    for k, s, v in ex:
        es = evs(s)
        R.ob('last modified', k == 'ret' and len(es) == 2 and es[0][0] == 'get_date_string' and es[1][0] == 'change_header' and es[1][1] == ('str', 'Last-Modified') and es[1][2] == ('app', 'get_date_string', es[0][1]) and mentions_ptr(es[0][1], ('init', params(f)[0][1])), where(f), "must set Last-Modified to the date of the given time: %s" % (es,), s.path())
    f = bodies(prog, RQ + 'use_query_params_for_query_string')[0]
    H = GH(R); H.hide = frozenset(('make_query_string', 'set_query_string'))
    E, ex = run(prog, R, H, f, lambda E, S, fr: load(H, E, S, {}))
    for k, s, v in ex:
        es = evs(s)
        R.ob('query string:set', k == 'ret' and [e[0] for e in es] == ['make_query_string', 'set_query_string'] and es[1][1][:2] == ('app', 'make_query_string') and es[1][1][2:] == es[0][1:], where(f), "must set the query string made from the parameters", s.path())
    f = bodies(prog, RQ + 'use_query_params_for_post_content')[0]
    H = GH(R); H.hide = frozenset(('make_query_string', 'set_method', 'set_content_type'))
    E, ex = run(prog, R, H, f, lambda E, S, fr: load(H, E, S, {}))
    for k, s, v in ex:
        es = evs(s)
        q = ('app', 'make_query_string') + [e for e in es if e[0] == 'make_query_string'][0][1:]
        sz = E.size_of(q)
        empty = E.assume(s.copy(), E.mkcmp(s, '!=', sz, 0), True) is None
        eq = lambda x: x == sz or empty and E.assume(s.copy(), E.mkcmp(s, '!=', x, 0), True) is None
        cp = [e for e in es if e[0] == 'copy']
        ptr = E.content(s, ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_ptr'))
        R.ob('post content:length', k == 'ret' and eq(E.content(s, ('f', this, M + 'm_content_length'))) and eq(E.content(s, ('f', ('f', this, M + 'm_content_buf'), M + 'content_buffer_t::m_len'))), where(f), "the content length is not the query string's", s.path())
        R.ob('post content:bytes', empty or len(cp) == 1 and cp[0][1] == ptr and cp[0][3] == sz, where(f), "the content is not the query string", s.path())
        R.ob('post content:kind', ('set_method', ('str', 'POST')) in es and ('set_content_type', ('str', 'application/x-www-form-urlencoded')) in es, where(f), "method or content type of a form post missing", s.path())
    R.count('generators and cases', n)
    R.floor('generators and cases', n, 30)


def fmt(prog, v):
    if isinstance(v, tuple) and v[0] == 'init' and v[1][0] == 'g': return prog.globals.get(v[1][1], {}).get('str')
    if isinstance(v, tuple) and v[0] in ('strp', 'str'): return v[1].rstrip('\0')
    return v


def empty_text(E, s, t):
    if t == ('str', ''): return True
    # text of a buffer whose first byte is zero
    p = cptr(t)
    if p is None: return False
    l = p[1] if p[0] == 'addr' else ('d', p)
    return E.content(s, l) == 0


def cptr(t):
    while isinstance(t, tuple) and t and t[0] == 'app' and len(t) == 3: t = t[2]
    return t if isinstance(t, tuple) and t and t[0] in ('addr', 'lin', 'init') else None


def mentions_ptr(t, p):
    if t == p: return True
    return isinstance(t, tuple) and any(mentions_ptr(x, p) for x in t)
