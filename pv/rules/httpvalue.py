"""C15 messages as values, C16 first line, C17 headers on send."""
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..report import where
from .httpmsg import Scen, params, set_arg, evs, names, copied, M

this = ('o', 'this')
OTHER = ('h', 'other', 0)      # an object distinct from *this
RQ, RS = 'pion::http::request::', 'pion::http::response::'
CB = M + 'content_buffer_t::'


def init(l, tag):
    t = ('init', l); TAG[t] = tag
    return t


def fields(prog, cls):
    """[(class, field, type)] of cls and its bases, in layout order"""
    r = prog.records.get(cls)
    if r is None: return []
    out = []
    for b in r['bases']:
        if b.startswith('pion::'): out += fields(prog, b)
    return out + [(cls, f['name'], f['type']) for f in r['fields'] if not f.get('static')]


def bodies(prog, name, pred=None):
    return [f for f in prog.by_name.get(name, []) if 'blocks' in f and (pred is None or pred(f))]


CONT = ('std::unordered_multimap', 'std::unordered_map', 'std::multimap', 'std::map', 'std::vector', 'std::__cxx11::list', 'std::list', 'std::deque', 'boost::unordered_multimap', 'boost::unordered::unordered_multimap', 'boost::unordered::unordered_map')


class VH(Scen):
    max_states = 3000
    unroll = 20

    def __init__(self, R=None):
        Scen.__init__(self)
        self.R = R

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a = info['nm'] or '', strip_targs(info['cls'] or ''), info['obj'], info['args']
        if cls in CONT and obj is not None and not n.get('inroot'):
            if info.get('ctor') and not a:
                S.mem[obj] = ('app', 'emptied'); TAG[S.mem[obj]] = 'o'; return [(S, None)]
            if info.get('ctor') and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'L' and n.get('copy'):
                E.copy_obj(S, fr, obj, a[0][1], n); return [(S, None)]
            if nm == 'clear' or (nm == 'resize' and a and a[0] == 0) or (nm == 'erase' and len(a) == 2 and self.whole(E, S, obj, a)):
                E.kill(S, obj); S.mem[obj] = ('app', 'emptied'); TAG[S.mem[obj]] = 'o'
                return [(S, 0)]
            if nm in ('begin', 'cbegin', 'end', 'cend'):
                t = ('app', 'pos', nm.lstrip('c'), obj); TAG[t] = 'o'
                return [(S, E.tmp(S, fr, info['nid'], t))]
            if nm in ('swap', 'operator=') and a and isinstance(a[0], tuple) and a[0][0] == 'L':
                if nm == 'operator=': E.copy_obj(S, fr, obj, a[0][1], n); return [(S, ('L', obj))]
                x, y = E.content(S, obj), E.content(S, a[0][1])
                S.mem[obj], S.mem[a[0][1]] = y, x
                return [(S, 0)]
        c = copied(E, S, info)
        if c is not None:
            self.ev(S, 'copy', *c)
            return [(S, add(c[0], c[2]))]
        if info['sfn'] in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            self.ev(S, 'copy', *a[:3])
            return [(S, a[0])]
        return self.more(E, S, fr, n, info)

    def more(self, E, S, fr, n, info): return None

    def whole(self, E, S, obj, a):
        c = [E.content(S, x[1]) if isinstance(x, tuple) and x[0] == 'L' else None for x in a]
        return c == [('app', 'pos', 'begin', obj), ('app', 'pos', 'end', obj)]


def mentions(t, loc):
    if t == ('init', loc): return True
    if isinstance(t, tuple): return any(mentions(x, loc) for x in t)
    return False


def field_of(l, root):
    """the outermost member of root that location l belongs to"""
    while isinstance(l, tuple) and l and l[0] in ('f', 'el'):
        if l[1] == root: return l[2]
        l = l[1]
    return None


def run(prog, R, H, f, setup=None, S=None):
    E = Engine(prog, H)
    fr, ex = E.entry(f, setup=setup, S=S)
    R.engine(E)
    return E, [x for x in ex if x[0] in ('ret', 'throw')]


def bind_param(S, fr, f, i, loc): S.bind[(fr.id, f['params'][i])] = loc


def same_field(E, s, cls, name, typ, src):
    a, b = ('f', this, cls + '::' + name), ('f', src, cls + '::' + name)
    va, vb = E.content(s, a), E.content(s, b)
    return va == vb


def values(prog, R, tier):
    R.rule("for request, response and message, copy construction and assignment are interpreted abstractly: at every exit every data member of the copy, of the class and its bases, holds the source's value, and the source is untouched; content buffers own their bytes, hold the same number of them, stay null-terminated and survive self-assignment; clear() leaves no member depending on its former value and every flag, number and text at its initial value; constructors give every member a value")
    R.assumptions += ["members of library types (strings, containers, addresses, smart pointers) are copied completely by their own copy operations", "a defaulted copy operation copies every member"]
    nops = 0
    for cls in ('pion::http::message', 'pion::http::request', 'pion::http::response'):
        short = cls.rsplit('::', 1)[1]
        fl = fields(prog, cls)
        R.floor(short + ' members', len(fl), 3)
        is_copy = lambda f: len(f['params']) >= 1 and strip_targs(params(f)[0][0].replace('const ', '').rstrip('& ')) == cls and len(f['params']) == 1
        for what, name in (('copy', '%s::%s' % (cls, short)), ('assign', cls + '::operator=')):
            for f in bodies(prog, name, is_copy):
                H = VH(R)
                H.opaque = frozenset([CB + 'content_buffer_t', CB + 'operator='])

                def more(E, S, fr, n, info):
                    c = strip_targs(info['cls'] or '')
                    if c + '::' == CB and (info.get('ctor') or info['nm'] == 'operator='):
                        if len(info['args']) == 1 and info['args'][0][0] == 'L':
                            S.mem[info['obj']] = E.content(S, info['args'][0][1])
                        elif not info['args']: S.mem[info['obj']] = ('app', 'emptied')
                        TAG.setdefault(S.mem[info['obj']], 'o')
                        return [(S, ('L', info['obj']) if not info.get('ctor') else None)]
                    if c in ('pion::http::types',): return [(S, None)]
                    return None
                H.more = more

                def setup(E, S, fr): bind_param(S, fr, f, 0, OTHER)
                E, ex = run(prog, R, H, f, setup)
                for k, s, v in ex:
                    nops += 1
                    R.ob('%s.%s:returns' % (short, what), k == 'ret', where(f), "throws")
                    for c, m, t in fl:
                        dst, src = ('f', this, c + '::' + m), ('f', OTHER, c + '::' + m)
                        R.ob('%s.%s:%s' % (short, what, m), E.content(s, dst) == ('init', src), where(f), "%s of a %s leaves %s with another value than the source's" % ('copy construction' if what == 'copy' else 'assignment', short, m), s.path())
                        R.ob('%s.%s:source' % (short, what), E.content(s, src) == ('init', src), where(f), "changes its source", s.path())
                    if what == 'assign': R.ob('%s.assign:result' % short, v == ('L', this), where(f), "must return the assigned object")
        # clear
        f = bodies(prog, cls + '::clear')
        if not f: raise AnalysisError("no %s::clear" % cls)
        f = f[0]
        ctor = bodies(prog, '%s::%s' % (cls, short), lambda g: not g['params'])
        if not ctor: raise AnalysisError("no default constructor of %s" % cls)
        E0, ex0 = run(prog, R, VH(R), ctor[0])
        E, ex = run(prog, R, VH(R), f)
        nops += len(ex) + len(ex0)
        for k0, s0, v0 in ex0:
            for c, m, t in fl:
                l = ('f', this, c + '::' + m)
                sub_ = [x for x in s0.mem if field_of(x, this) == c + '::' + m]
                R.ob('%s.construct:%s' % (short, m), bool(sub_) and s0.mem.get(l) != ('init', l), where(ctor[0]), "the default constructor leaves %s undefined" % m)
        for k, s, v in ex:
            R.ob(short + '.clear:returns', k == 'ret', where(f), "throws")
            for c, m, t in fl:
                l = ('f', this, c + '::' + m)
                vals = {x: y for x, y in s.mem.items() if x == l or field_of(x, this) == c + '::' + m}
                fresh = bool(vals) and not any(mentions(y, ('f', this, c + '::' + m)) for y in vals.values())
                now = E.content(s, l)
                at0 = [E0.content(s0, l) for k0, s0, v0 in ex0]
                if t.startswith('std::basic_string') and E.assume(s, E.mkcmp(s, '==', E.size_of(now), 0), False) is None: fresh = True
                if m == 'm_content_buf': fresh = E.content(s, ('f', l, CB + 'm_len')) == 0
                if m == 'm_remote_ip': good = fresh
                elif isinstance(at0[0], int): good = now in at0
                else: good = fresh
                R.ob('%s.clear:%s' % (short, m), good or now in at0 and fresh, where(f), "clear() leaves %s from the former message" % m, s.path())
    # the content buffer
    buf, ln, emp, ptr = [('f', this, CB + x) for x in ('m_buf', 'm_len', 'm_empty', 'm_ptr')]
    obuf, oln, optr = [('f', OTHER, CB + x) for x in ('m_buf', 'm_len', 'm_ptr')]

    def law(E, s, f, key, length):
        """the buffer of this is consistent and holds length bytes"""
        L = E.content(s, ln)
        R.ob(key + ':length', L == length or E.assume(s, E.mkcmp(s, '==', L, length), False) is None, where(f), "the buffer does not have the requested length", s.path())
        P, B = E.content(s, ptr), E.content(s, buf)
        if E.assume(s, E.mkcmp(s, '==', L, 0), False) is None: R.ob(key + ':empty', P == ('addr', emp) and E.content(s, emp) in (0, ('init', emp)), where(f), "an empty buffer must point at its own empty text", s.path())
        else:
            R.ob(key + ':owns', P == B and isinstance(B, tuple) and 'newarr' in repr(B), where(f), "the data pointer does not point at the buffer's own memory", s.path())
            size = B[3][1] if isinstance(B, tuple) and B[0] == 'sym' and isinstance(B[3], tuple) else None
            R.ob(key + ':room', size is not None and (size == add(L, 1) or E.assume(s, E.mkcmp(s, '>', size, L), False) is None), where(f), "no room for the terminating null", s.path())
            end = s.mem.get(('d', add(B, L)), s.mem.get(('d', add(P, L))))
            R.ob(key + ':terminated', end == 0, where(f), "the buffer is not null-terminated", s.path())
    f = bodies(prog, CB + 'resize')[0]
    for n in (0, 1, 2, 7, None):
        H = VH(R)
        LN = init(('o', 'arg', 'len'), ('i', 64, False))

        def setup(E, S, fr):
            if n is not None: set_arg(S, fr, f, 0, n)
            else: set_arg(S, fr, f, 0, LN); S.setint(LN, ((1, (1 << 62)),))
        E, ex = run(prog, R, H, f, setup)
        for k, s, v in ex:
            if k == 'throw': continue
            nops += 1
            law(E, s, f, 'resize', LN if n is None else n)
    for what, name in (('buffer copy', CB + 'content_buffer_t'), ('buffer assign', CB + 'operator=')):
        for f in bodies(prog, name, lambda g: len(g['params']) == 1):
            for n in (0, 3, None):
                H = VH(R)
                LN = init(oln, ('i', 64, False))

                def setup(E, S, fr):
                    bind_param(S, fr, f, 0, OTHER)
                    init(optr, 'p'); S.setint(('init', optr), ((1, 1 << 47),))
                    if n is not None: S.mem[oln] = n
                    else: S.setint(LN, ((1, 1 << 62),))
                E, ex = run(prog, R, H, f, setup)
                for k, s, v in ex:
                    if k == 'throw': continue
                    nops += 1
                    want = LN if n is None else n
                    law(E, s, f, what, want)
                    cp = [e for e in evs(s) if e[0] == 'copy' and e[3] != 0]
                    if n != 0: R.ob(what + ':bytes', [e[1:] for e in cp] == [(E.content(s, ptr), E.content(s, optr), want)], where(f), "must copy exactly the source's bytes into its own memory", s.path())
                    R.ob(what + ':source', E.content(s, optr) == ('init', optr) and E.content(s, oln) == want, where(f), "changes its source")
            if 'operator=' in name:
                H = VH(R)
                def setup(E, S, fr):
                    bind_param(S, fr, f, 0, this)
                    for l, t in ((ln, ('i', 64, False)), (ptr, 'p'), (buf, 'p')): init(l, t)
                E, ex = run(prog, R, H, f, setup)
                for k, s, v in ex:
                    nops += 1
                    R.ob('buffer assign:self', all(E.content(s, l) == ('init', l) for l in (ln, ptr, buf)) and not evs(s), where(f), "assigning a message to itself loses or re-allocates its content", s.path())
    f = bodies(prog, CB + 'content_buffer_t', lambda g: not g['params'])[0]
    E, ex = run(prog, R, VH(R), f)
    for k, s, v in ex: law(E, s, f, 'buffer construct', 0); R.ob('buffer construct:text', E.content(s, emp) == 0, where(f), "the empty text is not empty")
    R.count('operations', nops)
    R.floor('operations', nops, 15)


# ---------------------------------------------------------------- C16 first line
FL = ('f', this, M + 'm_first_line')


class FH(VH):
    unroll = 20

    def more(self, E, S, fr, n, info):
        nm, a = info['nm'] or '', info['args']
        if info['sfn'] == 'boost::lexical_cast' and a:
            v = E.content(S, a[0][1]) if isinstance(a[0], tuple) and a[0][0] == 'L' else a[0]
            if 'basic_string' in n.get('type', ''):
                t = ('str', str(v)) if isinstance(v, int) else ('app', 'dec', v)
                TAG[t] = 'str'
                return [(S, E.tmp(S, fr, info['nid'], t))]
        if info['sfn'] in ('std::to_string', 'std::__cxx11::to_string') and a and isinstance(a[0], int): return [(S, E.tmp(S, fr, info['nid'], ('str', str(a[0]))))]
        return None


class FM(FH):
    """a method of a message: other objects use its public interface, for which the law is shown separately"""
    unroll = 0
    max_states = 200
    in_clear = False

    @staticmethod
    def ev(S, *e): pass

    def more(self, E, S, fr, n, info):
        r = FH.more(self, E, S, fr, n, info)
        if r is not None: return r
        cls, nm = strip_targs(info['cls'] or ''), info['nm'] or ''
        if info['obj'] == this and n.get('inroot') and nm == 'update_first_line' and n.get('virt'):
            S.mem[FL] = ('app', 'recomputed') + tuple(E.content(S, ('f', this, d)) for d in self.deps); TAG[S.mem[FL]] = 'str'
            S.setint(E.size_of(S.mem[FL]), ((1, 1 << 40),))
            return [(S, 0)]
        if info['obj'] == this and n.get('inroot') and n.get('virt') and n.get('type') == 'void' and nm == 'clear' and not self.in_clear: return [(S, 0)]     # keeps the law, see below
        if n.get('inroot') and info['obj'] != this and not info.get('ctor') and cls.startswith('pion::') and cls not in ('pion::http::types',) and not cls.startswith('pion::http::message::content_buffer_t'):
            t = E.tag(n)
            if n.get('lv') or t == 'o': return [(S, ('L', ('d', E.sym(fr, info['nid'], 'p', nm)))) if n.get('lv') else (S, E.tmp(S, fr, info['nid'], E.sym(fr, info['nid'], 'o', nm)))]
            return [(S, 0 if n.get('type') == 'void' else E.sym(fr, info['nid'], t, nm))]
        return None


def first_line(prog, R, tier):
    R.rule("update_first_line is interpreted for requests and responses and must produce the start line of the current members; the members it depends on are collected; then every public operation that can change one of them is interpreted: at each exit a changed member implies that the cached line is empty, recomputed from the current members, or taken over with all of them from the same source")
    R.assumptions += ["members are private or protected, so other code changes them only through these operations"]
    nmeth = 0
    P = ('pion::http::message', 'pion::http::request', 'pion::http::response')
    for cls in P[1:]:
        short = cls.rsplit('::', 1)[1]
        f = bodies(prog, cls + '::update_first_line')
        if not f: raise AnalysisError("no %s::update_first_line" % cls)
        f = f[0]
        deps = set()
        if short == 'request': cases = [dict(m_method=m, m_resource=r, m_query_string=q, v=v) for m in ('GET', 'X') for r in ('/a/b', '') for q in ('', 'k=v', 'a&b') for v in ((1, 1), (1, 0), (2, 13))]
        else: cases = [dict(m_status_code=c, m_status_message=t, v=v) for c in (200, 404, 7) for t in ('OK', '', 'Not Found') for v in ((1, 1), (1, 0), (2, 13))]
        for c in cases:
            H = FH(R)
            H.read = lambda E, S, fr, loc, val, n: deps.add(loc[2]) if loc[0] == 'f' and loc[1] == this and isinstance(loc[2], str) and loc != FL else None

            def setup(E, S, fr):
                for k, v in c.items():
                    if k != 'v': S.mem[('f', this, cls + '::' + k)] = ('str', v) if isinstance(v, str) else v
                S.mem[('f', this, M + 'm_version_major')], S.mem[('f', this, M + 'm_version_minor')] = c['v']
            E, ex = run(prog, R, H, f, setup)
            ver = 'HTTP/%d.%d' % c['v']
            want = '%s %s%s %s' % (c['m_method'], c['m_resource'], '?' + c['m_query_string'] if c['m_query_string'] else '', ver) if short == 'request' else '%s %d %s' % (ver, c['m_status_code'], c['m_status_message'])
            for k, s, v in ex:
                got = E.content(s, FL)
                R.ob(short + ':start line', k == 'ret' and got == ('str', want), where(f), "builds the start line %s instead of '%s'" % (got, want), s.path())
        deps |= {cls + '::' + k for k in cases[0] if k != 'v'} | {M + 'm_version_major', M + 'm_version_minor'}
        deps = sorted(d for d in deps if d.rsplit('::', 1)[0] in P)
        R.count(short + ' members the first line depends on', len(deps))
        # operations
        from ..eng import mod_fields
        for pc in ('pion::http::message', cls):
            for name in sorted(prog.by_name):
                if name.rsplit('::', 1)[0] != pc: continue
                for f in bodies(prog, name):
                    last = name.rsplit('::', 1)[1]
                    ctor = last == pc.rsplit('::', 1)[1]
                    if last.startswith('~') or f.get('static') or f.get('sm'): continue
                    if f.get('access', 0) != 0: continue
                    mods = mod_fields(prog, f['fid'])
                    if not ctor and not any(d in mods for d in deps): continue
                    H = FM(R)
                    H.deps = deps
                    H.in_clear = last == 'clear'
                    other = any(strip_targs(t.replace('const ', '').rstrip('& ')) in P for t, l in params(f))

                    def setup(E, S, fr):
                        if not ctor:
                            init(FL, 'str')
                            S.setint(E.size_of(('init', FL)), ((1, 1 << 40),))
                        for i, (t, l) in enumerate(params(f)):
                            if t.rstrip().endswith('&') and strip_targs(t.replace('const ', '').rstrip('& ')) in P: bind_param(S, fr, f, i, OTHER)
                    E, ex = run(prog, R, H, f, setup)
                    nmeth += 1
                    for k, s, v in ex:
                        if k != 'ret': continue
                        fl = E.content(s, FL)
                        own = [d for d in deps if d.rsplit('::', 1)[0] in (pc, 'pion::http::message')]
                        changed = [d for d in own if E.content(s, ('f', this, d)) != ('init', ('f', this, d))]
                        if not changed and not ctor: continue
                        empty = fl == ('str', '') or isinstance(fl, tuple) and E.assume(s, E.mkcmp(s, '==', E.size_of(fl), 0), False) is None
                        taken = fl == ('init', ('f', OTHER, M + 'm_first_line')) and all(E.content(s, ('f', this, d)) == ('init', ('f', OTHER, d)) for d in own)
                        fresh = isinstance(fl, tuple) and fl[:2] == ('app', 'recomputed') and fl[2:] == tuple(E.content(s, ('f', this, d)) for d in deps)
                        if ctor and FL not in s.mem: empty = True     # a string member starts empty
                        R.ob('%s:%s' % (short, name.replace('pion::http::', '')), empty or taken or fresh, where(f), "changes %s but keeps the first line built before" % ', '.join(d.rsplit('::', 1)[1] for d in changed), s.path())
    f = bodies(prog, M + 'get_first_line')[0]
    H = FM(R); H.deps = ()
    E, ex = run(prog, R, H, f)
    for k, s, v in ex:
        c = E.content(s, FL)
        upd = isinstance(c, tuple) and c[:2] == ('app', 'recomputed')
        R.ob('get_first_line', k == 'ret' and v == ('L', FL) and (upd or E.assume(s, E.mkcmp(s, '>', E.size_of(c), 0), False) is None), where(f), "must return the line, building it when it is empty", s.path())
    R.count('operations', nmeth)
    R.floor('operations', nmeth, 12)
