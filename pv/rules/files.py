"""C28 the file service stays inside its directory, C29 a file is sent completely and in order."""
import posixpath
from ..load import AnalysisError, strip_targs
from ..eng import Engine, TAG, add, sub
from ..maps import ent, key_loc, val_loc
from ..report import where
from ..models import boolof
from .httpmsg import params, set_arg, evs
from .auth import error_fact, AU, AN, init, app, meth, this, fact

FS, DF, SN = 'pion::plugins::FileService::', 'pion::plugins::DiskFile::', 'pion::plugins::DiskFileSender::'
BOOL, I64 = ('i', 1, False), ('i', 64, False)
BASE = '/b1/b2/b3/b4'


def normalize(t):
    """boost::filesystem::path::normalize: purely by the text"""
    if not t: return t
    root = t.startswith('/')
    out = []
    parts = t.split('/')
    for i, c in enumerate(parts):
        if c in ('', '.'):
            if i == len(parts) - 1 and i > 0 and (c == '' and len([x for x in parts if x]) > 0 or c == '.'):
                if out and out[-1] != '..' or c == '': out.append('.')
            continue
        if c == '..' and out and out[-1] not in ('..', '.'): out.pop(); continue
        out.append(c)
    while len(out) > 1 and out[-1] == '.' and out[-2] == '.': out.pop()
    r = ('/' if root else '') + '/'.join(out)
    return r or ('/' if root else '.')


def elements(t):
    """the elements a boost::filesystem::path iterates over"""
    l = [x for x in t.split('/') if x]
    return (['/'] if t.startswith('/') else []) + l + (['.'] if l and t.endswith('/') else [])


def real(t): return posixpath.normpath(posixpath.join(BASE, t)).replace('//', '/')


def inside(d, p):
    a, b = [x for x in real(d).split('/') if x], [x for x in real(p).split('/') if x]
    return b[:len(a)] == a


class SV_(AN):
    """paths and texts known, everything else arbitrary"""
    MAPF = 'm_cache_map'
    unroll = 12
    max_states = 20000
    method = rel = None

    def is_map(self, obj):
        return AU.is_map(self, obj)

    def cached(self, k): return app('cached path', k)

    def new_entry(self, E, S, fr, m, i, n):
        l = val_loc(i)
        S.mem[('f', l, DF + 'm_file_path')] = self.cached(E.content(S, key_loc(i)))
        for x in ('m_file_size', 'm_last_modified'):
            t = app('cached ' + x, tag=I64); S.setint(t, ((0, 1 << 40),)); S.mem[('f', l, DF + x)] = t
        for x in ('m_last_modified_string', 'm_mime_type'): S.mem[('f', l, DF + x)] = app('cached ' + x)

    def inserted(self, E, S, fr, m, i, n):
        self.ev(S, 'cache', E.content(S, key_loc(i)), E.content(S, ('f', val_loc(i), DF + 'm_file_path')))

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sfn = info['sfn'] or ''
        ext = not n.get('inroot')
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else (('str', v[1].rstrip('\0')) if isinstance(v, tuple) and v and v[0] == 'strp' else v)
        T = lambda v: E.tmp(S, fr, nid, v)
        c = strip_targs(cls)
        if ext and c == 'boost::filesystem::path':
            r = self.path_call(E, S, fr, n, info, sc)
            if r is not None: return r
        if ext and obj is None and nm in ('operator/', 'operator==', 'operator!=') and len(a) == 2 and 'filesystem' in ' '.join(n.get('pt') or []):
            x, y = sc(a[0]), sc(a[1])
            if x[0] == 'str' and y[0] == 'str':
                if nm == 'operator/': return [(S, T(self.join(x, y)))]
                return [(S, int((x[1] == y[1]) == (nm == 'operator==')))]
        if ext and ('path_iterator' in cls or 'boost::iterators' in sfn and 'path_iterator' in ' '.join(n.get('pt') or [])):
            r = self.pathit_call(E, S, fr, n, info, sc)
            if r is not None: return r
        if ext and c == 'std::basic_string' and obj is not None:
            t = E.content(S, obj)
            v = [sc(x) for x in a]
            if nm == 'compare' and len(v) == 3 and t[0] == 'str' and isinstance(v[2], tuple) and v[2][0] == 'str' and isinstance(v[0], int) and isinstance(v[1], int):
                x = t[1][v[0]:v[0] + v[1]]
                return [(S, (x > v[2][1]) - (x < v[2][1]))]
            if nm in ('starts_with',) and t[0] == 'str' and v[0][0] == 'str': return [(S, int(t[1].startswith(v[0][1])))]
        if ext and sfn.startswith('boost::algorithm::') and nm in ('starts_with', 'ends_with') and len(a) == 2:
            x, y = sc(a[0]), sc(a[1])
            if x[0] == 'str' and y[0] == 'str': return [(S, int(x[1].startswith(y[1]) if nm == 'starts_with' else x[1].endswith(y[1])))]
        if ext and sfn.startswith('boost::filesystem::') and obj is None and not nm.startswith('operator'):
            v = [sc(x) for x in a]
            self.ev(S, 'fs', nm, *v)
            if nm in ('exists', 'is_directory', 'is_regular_file', 'is_symlink', 'is_empty', 'is_other'):
                return [(S, app(nm, v[0], tag=BOOL))]
            t = app(nm, *v, tag=I64)
            if nm in ('file_size', 'last_write_time', 'remove', 'remove_all'):
                S.setint(t, ((0, 1 << 40),))
                s2 = S.copy(); s2.mon['threw'] = nm
                return [(S, t), ('throw', s2, 'boost::filesystem::filesystem_error')]
            return [(S, T(app(nm, *v, tag='o')))]
        if ext and c in ('boost::filesystem::basic_ofstream', 'boost::filesystem::basic_ifstream', 'boost::filesystem::basic_fstream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_ostream', 'std::basic_istream', 'std::basic_ios', 'boost::filesystem::ofstream', 'boost::filesystem::ifstream'):
            r = self.file_call(E, S, fr, n, info, sc, c)
            if r is not None: return r
        if obj is not None and nm == 'get_relative_resource': return [(S, T(self.rel))]
        if nm == 'get_method' and cls.startswith('pion::http::'): return [(S, T(self.method))]
        if nm == 'get_content' and cls.startswith('pion::http::message'): return [(S, app('content', tag='p'))]
        if nm == 'get_content_length' and cls.startswith('pion::http::message'):
            t = app('content length', tag=I64); S.setint(t, ((0, 1 << 30),)); return [(S, t)]
        if nm in ('sendNotFoundResponse',) and nm in self.opaque:
            self.ev(S, 'answer', 404); return [(S, 0)]
        if nm == 'create' and cls.startswith('pion::plugins::DiskFileSender'):
            l = a[0][1]
            self.ev(S, 'serve', E.content(S, ('f', l, DF + 'm_file_path')), sc(a[2]))
            p = app('sender', tag='p'); S.setint(p, ((1 << 12, 1 << 46),))
            return [(S, T(p))]
        if nm == 'send' and cls.startswith('pion::plugins::DiskFileSender') and self.method is not None:
            self.ev(S, 'answer', 'file'); return [(S, 0)]
        if nm == 'findMIMEType': return [(S, T(app('mime', sc(a[0]))))]
        if nm == 'get_date_string': return [(S, T(app('date', sc(a[0]))))]
        if ext and sfn in ('std::operator|', 'std::operator&') and 'Openmode' in ' '.join(n.get('pt') or []):
            x, y = sc(a[0]), sc(a[1])
            if isinstance(x, int) and isinstance(y, int): return [(S, x | y if sfn[-1] == '|' else x & y)]
        if ext and sfn == 'boost::numeric_cast': return [(S, sc(a[0]))]
        if nm == 'send' and obj == self.W: self.ev(S, 'answer', 'writer')
        return AN.call(self, E, S, fr, n, info)

    def pathit_call(self, E, S, fr, n, info, sc):
        nm, a, obj, nid = info['nm'] or '', info['args'], info['obj'], info['nid']
        at = lambda v: v[2] if isinstance(v, tuple) and v[:2] == ('app', 'elem') else None
        if info.get('ctor'):
            v = sc(a[0]) if a else None
            if at(v) is None: return None
            S.mem[obj] = v; return [(S, None)]
        if obj is None and nm in ('operator++', 'operator--') and len(a) == 2:
            x = at(sc(a[0]))
            if x is None: return None
            E.write(S, fr, a[0][1], app('elem', (x[0], x[1] + (1 if nm == 'operator++' else -1)), tag='o'), n)
            return [(S, E.tmp(S, fr, nid, app('elem', x, tag='o')))]
        if obj is None:
            if len(a) != 2: return None
            x, y = [at(sc(v)) for v in a]
            if x is None or y is None or x[0] != y[0]: return None
            return [(S, int((x[1] == y[1]) == (nm == 'operator==')))] if nm in ('operator==', 'operator!=') else None
        x = at(E.content(S, obj))
        if nm == 'operator=': E.write(S, fr, obj, sc(a[0]), n); return [(S, ('L', obj))]
        if x is None: return None
        el = elements(x[0][1])
        if nm in ('operator*', 'operator->'):
            if x[1] >= len(el): raise AnalysisError("a path is read beyond its end")
            v = E.tmp(S, fr, nid, ('str', el[x[1]]))
            return [(S, v if nm == 'operator*' else E.addr(v[1]))]
        if nm in ('operator++', 'operator--'):
            E.write(S, fr, obj, app('elem', (x[0], x[1] + (1 if nm == 'operator++' else -1)), tag='o'), n)
            return [(S, ('L', obj))] if not a else [(S, E.tmp(S, fr, nid, app('elem', x, tag='o')))]
        return None

    @staticmethod
    def join(x, y):
        if not x[1]: return y
        return ('str', x[1] + ('' if x[1].endswith('/') or y[1].startswith('/') or not y[1] else '/') + y[1])

    def path_call(self, E, S, fr, n, info, sc):
        nm, a, obj, nid = info['nm'] or '', info['args'], info['obj'], info['nid']
        T = lambda v: E.tmp(S, fr, nid, v)
        if info.get('ctor'):
            v = sc(a[0]) if a else ('str', '')
            if not isinstance(v, tuple): return None
            S.mem[obj] = v; return [(S, None)]
        t = E.content(S, obj)
        if nm in ('operator=', 'assign') and len(a) == 1:
            E.write(S, fr, obj, sc(a[0]), n); return [(S, ('L', obj))]
        if not isinstance(t, tuple): return None
        if nm in ('string', 'native', 'generic_string', 'c_str'):
            return [(S, ('strp', t[1]) if nm == 'c_str' and t[0] == 'str' else T(t))]
        if t[0] != 'str':
            return [(S, T(app('path.' + nm, t)))] if nm in ('filename', 'leaf', 'extension', 'parent_path', 'branch_path', 'stem') else None
        if nm in ('operator/=', 'append') and len(a) == 1 and sc(a[0])[0] == 'str':
            E.write(S, fr, obj, self.join(t, sc(a[0])), n); return [(S, ('L', obj))]
        if nm in ('normalize',):
            E.write(S, fr, obj, ('str', normalize(t[1])), n); return [(S, ('L', obj))]
        if nm in ('lexically_normal',): return [(S, T(('str', normalize(t[1]))))]
        if nm in ('parent_path', 'branch_path'): return [(S, T(('str', t[1].rsplit('/', 1)[0] if '/' in t[1] else '')))]
        if nm in ('filename', 'leaf'): return [(S, T(('str', t[1].rsplit('/', 1)[-1])))]
        if nm == 'empty': return [(S, int(not t[1]))]
        if nm in ('begin', 'end'): return [(S, T(app('elem', (t, 0 if nm == 'begin' else len(elements(t[1]))), tag='o')))]
        if nm == 'root_directory': return [(S, T(('str', '/' if t[1].startswith('/') else '')))]
        if nm == 'compare' and len(a) == 1 and sc(a[0])[0] == 'str':
            x, y = elements(t[1]), elements(sc(a[0])[1])
            return [(S, (x > y) - (x < y))]
        if nm in ('is_absolute', 'has_root_directory', 'is_complete'): return [(S, int(t[1].startswith('/')))]
        return None

    def file_call(self, E, S, fr, n, info, sc, c):
        nm, a, obj, nid = info['nm'] or '', info['args'], info['obj'], info['nid']
        out = 'ofstream' in c or 'basic_fstream' in c
        if info.get('ctor') and a or nm == 'open':
            mode = sc(a[1]) if len(a) > 1 else None
            self.ev(S, 'open', 'out' if out else 'in', sc(a[0]), mode)
            return [(S, None if info.get('ctor') else 0)]
        if info.get('ctor'): return [(S, None)]
        if nm == 'write':
            self.ev(S, 'write file', sc(a[0]), sc(a[1])); return [(S, ('L', obj))]
        if nm == 'read':
            self.ev(S, 'read file', sc(a[0]), sc(a[1]))
            s2 = S.copy(); S.mon['read ok'] = 1; s2.mon['read ok'] = 0
            return [(S, ('L', obj)), (s2, ('L', obj))]
        if nm == 'close':
            self.ev(S, 'close file'); return [(S, 0)]
        if nm in ('operator!', 'fail', 'bad'): return [(S, int(not S.mon.get('read ok', 1)))]
        if nm == 'good' or nm.startswith('operator') and 'bool' in nm or nm.startswith('operator void'): return [(S, S.mon.get('read ok', 1))]
        if nm == 'is_open':
            k = S.mon.get('opened', 0)
            return [(S, app('open', len([e for e in evs(S) if e[0] == 'open']), tag=BOOL))]
        if nm == 'gcount':
            t = app('gcount', tag=I64); S.setint(t, ((0, 1 << 30),)); return [(S, t)]
        return None


READS = ('exists', 'is_directory', 'is_regular_file', 'is_symlink', 'file_size', 'last_write_time', 'status', 'symlink_status', 'canonical', 'is_empty', 'is_other', 'absolute', 'system_complete')


def openmodes(S):
    for i, x in enumerate(('app', 'ate', 'binary', 'in', 'out', 'trunc')): S.mem[('g', 'std::ios_base::' + x)] = 1 << i


def contained(prog, R):
    f = meth(prog, FS + 'operator()')
    rq, cn = [init(l, 'p') for t, l in params(f)[:2]]
    dirs = ['/srv/www', '/', 'www', '.', '..', '../data', '/srv/www/']
    rels = ['a.txt', 'sub/b.txt', '../www-private/x', '../www2', '../../etc/passwd', '../../../../../etc/passwd', 'sub/../../x', 'sub/../c.txt', '..', '.', '/etc/passwd', 'a/../../www/d', '../wwwx/../www/e', '../../secret', '...', '..x', 'x/..', './../y', '../.', 'sub//f']
    total = nout = 0
    METH = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE')
    cases = [(d, r, '') for d in dirs for r in rels] + [('', 'a.txt', ''), ('', '../x', ''), ('', 'a.txt', '/data/x.html'), ('', '', ''), ('/srv/www', '', ''), ('', '', '/data/x.html'), ('', '', '../x.html'), ('/srv/www', '', '/srv/www/x.html'), ('/srv/www', 'a.txt', '/srv/www/x.html')]
    for d, r, mf in cases:
        main = mf and not r or (d, r) in (('/srv/www', 'a.txt'), ('/srv/www', 'sub/b.txt'), ('/srv/www', 'sub/../c.txt'), ('.', 'a.txt'), ('/srv/www/', 'a.txt'))
        dn = normalize(d)
        target = normalize(SV_.join(('str', dn), ('str', r))[1] if r else mf)
        inn = inside(dn, target) if d and (r or mf) else bool(mf and not r)
        if d != '/srv/www' and inn: continue            # the answers for files inside are examined once
        if inn and not main: continue
        for m in (METH if main or d == '/srv/www' else ('GET', 'PUT', 'DELETE')):
            for w in (0, 1):
                if r == '' and m not in ('GET', 'HEAD', 'PUT'): continue
                if not w and m in ('GET', 'HEAD', 'TRACE') : continue
                H = SV_(('sendNotFoundResponse',)); H.method, H.rel = ('str', m), ('str', r)
                E = Engine(prog, H)
                def setup(E, S, fr):
                    for x in (rq, cn): S.setint(x, ((1 << 12, 1 << 46),))
                    S.mem[('f', this, FS + 'm_directory')] = ('str', dn)
                    S.mem[('f', this, FS + 'm_file')] = ('str', mf)
                    openmodes(S)
                    S.mem[('f', this, FS + 'm_writable')] = w
                    for x, hi in (('m_cache_setting', 2), ('m_scan_setting', 3)):
                        t = init(('f', this, FS + x), ('i', 32, False)); S.setint(t, ((0, hi),)); S.mem[('f', this, FS + x)] = t
                    H.put(S, 'cache', (), True, ())
                fr, ex = E.entry(f, this=this, setup=setup)
                R.engine(E)
                ex = [x for x in ex if x[0] in ('ret', 'throw')]
                if not ex: raise AnalysisError("FileService::operator() has no exit")
                for kind, s, v in ex:
                    total += 1
                    l = evs(s)
                    N = [e[0] for e in l]
                    acts = [e for e in l if e[0] in ('fs', 'open', 'serve', 'cache', 'write file', 'read file')]
                    def ob(k, ok, msg): R.ob("service:" + k, ok, where(f), msg, dict(directory=dn, requested=r, file=mf, target=target, method=m, writable=w, events=[str(e)[:160] for e in l], path=s.path()))
                    if not inn:
                        nout += 1
                        what = [e for e in acts if not (e[0] == 'fs' and len(e) > 2 and isinstance(e[2], tuple) and e[2][0] == 'str' and d and inside(dn, e[2][1]))]
                        ob('outside', not what and (not d or 'serve' not in N), "a request for %s reaches %s, which is outside of the directory %s" % (r, [str(x)[:80] for x in what[:2]], dn))
                        ob('answered', kind == 'ret' and N.count('answer') == 1, "a refused request must be answered exactly once")
                        continue
                    P, parent = ('str', target), ('str', target.rsplit('/', 1)[0])
                    CP = H.cached(H.rel)
                    paths = {'fs': lambda e: e[2:3], 'open': lambda e: e[2:3], 'serve': lambda e: e[1:2]}
                    for e in l:
                        if e[0] == 'cache': ob('cached', e[1:] == (H.rel, P) and m in ('GET', 'HEAD'), "stores %s in the cache for the request %s" % (str(e[2])[:60], str(e[1])[:40]))
                    for e in acts:
                        for p in paths.get(e[0], lambda e: ())(e):
                            ok = p == P or p == CP and m in ('GET', 'HEAD') or p == parent and e[0] == 'fs' and e[1] in READS
                            ob('path', ok, "%s uses %s, which is not the file that was requested and checked" % (e[:2], str(p)[:80]))
                    wr = [e for e in acts if e[0] == 'fs' and e[1] not in READS or e[0] == 'open' and e[1] == 'out' or e[0] == 'write file']
                    ob('within', ('set_status_code', 403) not in l or fact(E, s, app('is_directory', P, tag=BOOL)) == 1, "a request for a file within the directory is refused")
                    isdir = fact(E, s, app('is_directory', P, tag=BOOL))
                    if isdir or isdir is None and kind == 'ret': ob('directories', isdir == 1 and not wr and 'serve' not in N, "acts on a path without having found that it is not a directory")
                    if m in ('GET', 'HEAD', 'TRACE') or not w: ob('read only', not wr, "%s changes the file system%s" % (m, '' if w else ' although the service is not writable'))
                    if m != 'GET': ob('content', 'serve' not in N, "%s sends the file's content" % m)
                    if kind == 'ret': ob('answer', N.count('answer') == 1, "a request must be answered exactly once")
                    if m == 'TRACE' or not w and m not in ('GET', 'HEAD'):
                        ob('refused', not [e for e in acts if e[:2] != ('fs', 'is_directory')] and [e[1] for e in l if e[0] == 'set_status_code'] == ([501] if m == 'TRACE' else [405]) or isdir == 1, "the method must be refused without looking at the file")
                        continue
                    codes = [e[1] for e in l if e[0] == 'set_status_code'] + [e[1] for e in l if e[0] == 'answer']
                    ex_ = fact(E, s, app('exists', P, tag=BOOL))
                    if m in ('PUT', 'POST') and w and not isdir and kind == 'ret':
                        op = [e for e in wr if e[0] == 'open']
                        par = fact(E, s, app('exists', parent, tag=BOOL))
                        if 404 in codes: ob('no directory', not wr and par == 0, "a file is refused although its directory exists")
                        else:
                            ob('one file', len(op) == 1 and op[0][2] == P, "does not write exactly the requested file")
                            wf = [e for e in wr if e[0] == 'write file']
                            ob('whole content', len(wf) == 1 and wf[0][1:] == (app('content', tag='p'), app('content length', tag=I64)), "does not write exactly the request's content")
                            md = op[0][3] if op else None
                            if isinstance(md, int): ob('mode', bool(md & 1) == (m == 'POST') and (m == 'POST' or not md & 8 or bool(md & 32)), "POST must append to the file, PUT must replace its content")
                            else: ob('mode', md is None and m == 'PUT', "the way the file is opened is unknown (%s)" % (md,))
                            ob('nothing else', not [e for e in wr if e[0] == 'fs'], "does more to the file system than writing the file")
                            ob('directory exists', ex_ == 1 or par == 1 or par is None and ex_ is None, "writes into a directory that does not exist")
                            ob('stored', N.index('close file') < max(i for i, x in enumerate(N) if x == 'answer') if 'close file' in N and 'answer' in N else True, "confirms the file before it is stored")
                    if m == 'DELETE' and w and not isdir and kind == 'ret':
                        rm = [e for e in wr if e[0] == 'fs']
                        ob('removes', [e[1] for e in rm] == (['remove'] if ex_ else []) and ex_ is not None and len(wr) == len(rm), "DELETE must remove exactly the requested file, if it exists")
                        ob('failure', (500 in codes) == (s.mon.get('threw') == 'remove') and (404 in codes) == (not ex_), "the outcome of the removal is not reported")
                    if m in ('GET', 'HEAD') and not isdir and kind == 'ret':
                        sv = [e for e in l if e[0] == 'serve']
                        ob('serves', len(sv) <= int(m == 'GET') and all(e[2] == cn for e in sv), "does not serve the file once over the request's own connection")
    R.floor('requests outside the directory', nout, 100)
    R.count('requests outside the directory (exits)', nout)
    return total


def entries(prog, R):
    f = meth(prog, FS + 'addCacheEntry')
    rel, path = app('the relative path'), app('the path')
    H = SV_(()); E = Engine(prog, H)
    def setup(E, S, fr):
        set_arg(S, fr, f, 0, rel); set_arg(S, fr, f, 1, path)
        H.put(S, 'cache', (), False, ())
    fr, ex = E.entry(f, this=this, setup=setup)
    R.engine(E)
    n = 0
    for kind, s, v in ex:
        if kind not in ('ret', 'throw'): continue
        c = [e for e in evs(s) if e[0] == 'cache']
        n += len(c)
        R.ob('cache:entry', all(e[1:] == (rel, path) for e in c) and len(c) <= 1, where(f), "a cache entry must lead from the relative path to the file that was found", dict(events=[str(e)[:160] for e in evs(s)], path=s.path()))
    R.floor('cache entries', n, 1)
    return n


def c28(prog, R, tier):
    R.rule("FileService::operator() is interpreted abstractly for directories and requested paths covering every relation a path can have to the directory after normalisation (inside, equal, a parent, a sibling whose name starts with the directory's, above a relative directory), every method, writable or not, any cache and scan setting and any outcome of the file system; every path given to the file system must be the checked one")
    R.assumptions += ["boost::filesystem::path::normalize works by the text as documented; symbolic links inside the directory are the administrator's", "relations of a path to the directory are represented by a table of directories and relative paths"]
    R.count('exits examined', contained(prog, R))
    R.count('cache entries', entries(prog, R))


# ------------------------------------------------------------------ C29
class SendH(SV_):
    """a sender, or a file, whose stream opens, reads and fails arbitrarily"""
    uniq_new = True

    def call(self, E, S, fr, n, info):
        nm, cls, obj, a, nid = info['nm'] or '', info['cls'] or '', info['obj'], info['args'], info['nid']
        sc = lambda v: E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] != 'fn' else v
        if nm in ('shared_from_this', 'weak_from_this'): return [(S, E.tmp(S, fr, nid, app('shared_from_this', obj, tag='p')))]
        if obj == self.W and nm == 'clear': self.ev(S, 'clear'); return [(S, 0)]
        if cls.startswith('pion::tcp::connection') and nm in ('set_lifecycle', 'finish', 'close', 'cancel', 'shutdown'):
            self.ev(S, nm, *[sc(x) for x in a]); return [(S, 0)]
        if nm in self.opaque and obj == this:
            self.ev(S, nm)
            if nm == 'read' and self.throws:
                s2 = S.copy(); s2.mon['read threw'] = 1
                return [(S, 0), ('throw', s2, 'pion::error::read_file')]
            return [(S, 0)]
        if nm == 'operator<<' and 'writer' not in ' '.join(n.get('pt') or []): return AU.call(self, E, S, fr, n, info)
        return SV_.call(self, E, S, fr, n, info)

    throws = True

    def file_call(self, E, S, fr, n, info, sc, c):
        nm, a, obj, nid = info['nm'] or '', info['args'], info['obj'], info['nid']
        if info.get('ctor') and a or nm == 'open':
            self.ev(S, 'open', sc(a[0]))
            s2 = S.copy()
            S.mon.update({'open': 1, 'pos': 0, 'good': 1}); s2.mon.update({'open': 0, 'good': 0})
            r = None if info.get('ctor') else 0
            return [(S, r), (s2, r)]
        if info.get('ctor'):
            S.mon.update({'open': 0, 'good': 1}); return [(S, None)]
        if nm == 'is_open': return [(S, S.mon['open'])]
        if nm == 'read':
            p, k = sc(a[0]), sc(a[1])
            self.ev(S, 'read file', p, k, S.mon.get('pos'), S.mon['open'])
            if not S.mon['open']: S.mon['good'] = 0; return [(S, ('L', obj))]
            s2 = S.copy()
            S.mon['pos'] = add(S.mon['pos'], k); S.mon['gcount'] = k
            s2.mon['good'] = 0; s2.mon['gcount'] = None
            return [(S, ('L', obj)), (s2, ('L', obj))]
        if nm == 'seekg': S.mon['pos'] = sc(a[0]); return [(S, ('L', obj))]
        if nm == 'close': S.mon['open'] = 0; return [(S, 0)]
        if nm == 'clear': S.mon['good'] = 1; return [(S, 0)]
        if nm in ('operator!', 'fail', 'bad'): return [(S, int(not S.mon['good']))]
        if nm == 'good' or nm.startswith('operator') and 'bool' in nm or nm.startswith('operator void'): return [(S, S.mon['good'])]
        if nm == 'gcount':
            if S.mon.get('gcount') is not None: return [(S, S.mon['gcount'])]
            t = app('gcount', tag=I64); S.setint(t, ((0, 1 << 40),)); return [(S, t)]
        return None


def holds(E, s, op, a, b):
    c = E.mkcmp(s, op, a, b)
    return bool(c) if isinstance(c, int) else E.assume(s.copy(), c, False) is None


def decided(E, s, op, a, b):
    c = E.mkcmp(s, op, a, b)
    if isinstance(c, int): return c
    return 1 if E.assume(s.copy(), c, False) is None else 0 if E.assume(s.copy(), c, True) is None else None


CONN_ = ('o', 'connection')


def sender_setup(S, E, sent, rest, content, mx):
    df = ('f', this, SN + 'm_disk_file')
    for t in (sent, rest):
        if not isinstance(t, int): S.setint(t, ((0, 1 << 40),))
    if not isinstance(mx, int): S.setint(mx, ((1, 1 << 40),))
    S.mem[('f', df, DF + 'm_file_size')] = add(sent, rest)
    S.mem[('f', df, DF + 'm_file_content')] = content
    S.mem[('f', df, DF + 'm_file_path')] = app('path')
    S.mem[('f', this, SN + 'm_bytes_sent')] = sent
    S.mem[('f', this, SN + 'm_max_chunk_size')] = mx
    w, c = E.addr(SendH.W), E.addr(CONN_)
    for t in (w, c): S.setint(t, ((1 << 12, 1 << 46),))
    S.mem[('f', this, SN + 'm_writer')] = w
    S.mem[('f', SendH.W, 'pion::http::writer::m_tcp_conn')] = c


def sends(prog, R):
    f = meth(prog, SN + 'send')
    total = 0
    CONTENT, BUF = app('content', tag='p'), app('buffer', tag='p')
    sent_, rest, mx_ = app('sent', tag=I64), app('rest', tag=I64), app('max', tag=I64)
    for cached in (0, 1):
        for sent in (0, sent_):
            for mx in (0, mx_):
                if mx == 0 and sent != 0: continue          # without a limit the first piece is the whole file
                H = SendH(()); E = Engine(prog, H)
                def setup(E, S, fr):
                    for t in (CONTENT, BUF): S.setint(t, ((1 << 12, 1 << 46),))
                    sender_setup(S, E, sent, rest, CONTENT if cached else 0, mx)
                    if sent != 0: S.setint(sent, ((1, 1 << 40),)); S.setint(rest, ((1, 1 << 40),))
                    again = sent != 0 and not cached
                    S.mem[('f', this, SN + 'm_content_buf')] = BUF if again else 0
                    S.mon.update({'open': int(again), 'good': 1, 'pos': sent if again else 0})
                fr, ex = E.entry(f, this=this, setup=setup)
                R.engine(E)
                ex = [x for x in ex if x[0] in ('ret', 'throw')]
                if not ex: raise AnalysisError("DiskFileSender::send has no exit")
                for kind, s, v in ex:
                    total += 1
                    l = evs(s)
                    N = [e[0] for e in l]
                    def ob(k, ok, m): R.ob("sender:" + k, ok, where(f), m, dict(cached=cached, first=sent == 0, limited=mx != 0, events=[str(e)[:200] for e in l], path=s.path()))
                    ob('returns', kind == 'ret', "throws although the response has begun")
                    out = [e for e in l if e[0] in ('send', 'send_chunk', 'send_final_chunk')]
                    wr = [e for e in l if e[0] in ('write', 'write_no_copy')]
                    fin, rd = N.count('finish'), [e for e in l if e[0] == 'read file']
                    failed = not cached and not (s.mon.get('open') and s.mon.get('good'))
                    empty = decided(E, s, '==', rest, 0)
                    if empty == 1:
                        ob('empty', len(out) == 1 and out[0] == ('send',) and not wr and not fin or len(out) == 1 and out[0][0] == 'send' and not wr and not fin and 'handle_write' in str(out[0]), "an empty file must be answered by one response without content")
                        continue
                    if failed and empty == 0 and not out:
                        ob('failure', fin == 1 and not wr and ('set_lifecycle', 0) in l and N.index('set_lifecycle') < N.index('finish'), "when the file cannot be opened or read, the connection must be finished once and not be used again")
                        continue
                    k = E.content(s, ('f', this, SN + 'm_file_bytes_to_send'))
                    ob('piece', holds(E, s, '>', k, 0) and holds(E, s, '<=', k, rest) and (mx == 0 and k == rest or mx != 0 and (k == mx or k == rest and holds(E, s, '<=', rest, mx))), "a piece must be the rest of the file, or the largest allowed part of it")
                    ob('written', len(wr) == 1 and wr[0][0] == 'write_no_copy' and wr[0][2] == k, "must write the piece exactly once")
                    p = wr[0][1] if wr else None
                    if cached: ob('cached', p == add(CONTENT, sent) and not rd and 'open' not in N, "cached content must be sent from where the last piece ended")
                    else:
                        ob('read', not failed and len(rd) == 1 and rd[0][1] == p and rd[0][2] == k and rd[0][3] == sent and rd[0][4] == 1, "must read exactly the piece that follows the last one")
                        ob('file', all(e[1] == app('path') for e in l if e[0] == 'open') and N.count('open') == int(sent == 0), "opens another file, or opens it again")
                        cur = E.content(s, ('f', this, SN + 'm_content_buf'))
                        ob('buffer', p == cur and (p == BUF or isinstance(p, tuple) and ('newarr', k) in p), "the piece is not in the sender's buffer, or the buffer is too small")
                    ob('not finished', not fin and 'set_lifecycle' not in N, "touches the connection before the piece has been written")
                    last = decided(E, s, '==', k, rest)
                    want = None if last is None else ('send' if sent == 0 else 'send_final_chunk') if last else 'send_chunk'
                    ob('sent', len(out) == 1 and want is not None and out[0][0] == want, "must send the piece once: as the whole, as a chunk, or as the last chunk")
                    t = str(out[0][1:]) if out else ''
                    ob('continuation', 'handle_write' in t and ('shared_from_this' in t or 'shared_ptr' in t) and 'placeholders::error' in t or 'lambda' in t, "the end of the write must be handled by this sender, kept alive until then")
    R.floor('exits of send', total, 12)
    return total


def written(prog, R):
    f = meth(prog, SN + 'handle_write')
    sent, rest, k = app('sent', tag=I64), app('rest', tag=I64), app('piece', tag=I64)
    total = 0
    for _ in (0,):
        H = SendH(('send',)); E = Engine(prog, H)
        more = app('more', tag=I64)
        def setup(E, S, fr):
            for t in (k, more): S.setint(t, ((0, 1 << 40),))
            sender_setup(S, E, sent, add(k, more), 0, 0)
            S.mem[('f', this, SN + 'm_file_bytes_to_send')] = k
        fr, ex = E.entry(f, this=this, setup=setup)
        R.engine(E)
        ex = [x for x in ex if x[0] in ('ret', 'throw')]
        if not ex: raise AnalysisError("DiskFileSender::handle_write has no exit")
        for kind, s, v in ex:
            total += 1
            l = evs(s)
            N = [e[0] for e in l]
            err = error_fact(E, s, params(f)[0][1])
            def ob(key, ok, m): R.ob("written:" + key, ok, where(f), m, dict(error=err, events=[str(e)[:200] for e in l], path=s.path()))
            ob('returns', kind == 'ret', "throws")
            ob('examined', err is not None, "goes on without having looked at the outcome of the write")
            if err:
                ob('error', N.count('finish') == 1 and ('set_lifecycle', 0) in l and N.index('set_lifecycle') < N.index('finish') and 'send' not in N, "after a write error the connection must be closed: finished once, not to be used again")
                continue
            done = decided(E, s, '==', more, 0)
            ob('progress', E.content(s, ('f', this, SN + 'm_bytes_sent')) == add(sent, k), "does not count the piece that was written")
            ob('done', done is not None and N.count('finish') == done and N.count('send') == 1 - done and 'set_lifecycle' not in N, "must finish the connection exactly when the whole file has been written, and send the next piece otherwise")
            if done == 0: ob('cleared', N.count('clear') == 1 and 'send' in N and N.index('clear') < N.index('send'), "sends the last piece again with the next one")
    return total


def files(prog, R):
    """a file's content, when it has any, is all of its size bytes, read from the file"""
    total = 0
    OLD = app('old content', tag='p')
    size, osize = app('size', tag=I64), app('old size', tag=I64)
    F = lambda x: ('f', this, DF + x)
    for fn in ('read', 'checkUpdated', 'update'):
        f = meth(prog, DF + fn)
        for had in (0, 1):
            H = SendH(('read',) if fn == 'checkUpdated' else ()); E = Engine(prog, H)
            def setup(E, S, fr):
                for t in (size, osize): S.setint(t, ((0, 1 << 40),))
                S.setint(OLD, ((1 << 12, 1 << 46),))
                S.mem[F('m_file_size')] = size if fn == 'read' else osize
                S.mem[F('m_file_content')] = OLD if had else 0
                S.mem[F('m_file_path')] = app('path')
                t = app('old time', tag=I64); S.setint(t, ((0, 1 << 40),)); S.mem[F('m_last_modified')] = t
                S.mem[F('m_last_modified_string')] = app('date', t)
            fr, ex = E.entry(f, this=this, setup=setup)
            R.engine(E)
            ex = [x for x in ex if x[0] in ('ret', 'throw')]
            if not ex: raise AnalysisError("DiskFile::%s has no exit" % fn)
            for kind, s, v in ex:
                total += 1
                l = evs(s)
                N = [e[0] for e in l]
                def ob(key, ok, m): R.ob("%s:%s" % (fn, key), ok, where(f), m, dict(had_content=had, events=[str(e)[:200] for e in l], path=s.path()))
                c = E.content(s, F('m_file_content'))
                sz, tm = E.content(s, F('m_file_size')), E.content(s, F('m_last_modified'))
                if fn == 'read':
                    rd = [e for e in l if e[0] == 'read file']
                    failed = not (s.mon.get('open') and s.mon.get('good'))
                    ob('outcome', (kind == 'throw') == failed, "an unreadable file must be reported, and only that")
                    if kind == 'throw': ob('no content', c == 0, "content that could not be read stays and will be sent to clients")
                    else:
                        ob('whole', len(rd) == 1 and rd[0][1:] == (c, size, 0, 1) and isinstance(c, tuple) and ('newarr', size) in c, "the content must be all of the file, in a buffer of its size")
                        ob('file', [e[1] for e in l if e[0] == 'open'] == [app('path')], "reads another file")
                    continue
                fs = app('file_size', app('path'), tag=I64); mt = app('last_write_time', app('path'), tag=I64)
                same = fn == 'checkUpdated' and kind == 'ret' and 'read' not in N
                if s.mon.get('threw'):
                    ob('kept', kind == 'throw' and 'read' not in N and c == (OLD if had else 0), "a file that cannot be examined must be reported")
                    if fn == 'checkUpdated': ob('unchanged', sz == osize and tm == app('old time', tag=I64), "the size no longer is that of the content")
                    continue
                if same:
                    ob('fresh', holds(E, s, '==', fs, osize) and holds(E, s, '==', mt, app('old time', tag=I64)) and v == 0 and sz == osize and c == (OLD if had else 0), "a file that has changed is not read again")
                    continue
                ob('values', sz == fs and tm == mt and E.content(s, F('m_last_modified_string')) == app('date', mt), "size and time of last modification must be the file's current ones")
                if fn == 'checkUpdated': ob('read again', N.count('read') == 1 and (kind == 'throw') == bool(s.mon.get('read threw')) and (kind == 'throw' or v == 1), "a changed file must be read again and be reported as changed")
                else: ob('returns', kind == 'ret', "throws")
    return total


def c29(prog, R, tier):
    R.rule("DiskFileSender::send and handle_write are interpreted abstractly for the first and a later piece, cached or streamed, any file size, position and piece limit and any outcome of the file; the pieces are compared with the part of the file that is due, the operations of DiskFile with the invariant that content, if there is any, is all of the file's bytes")
    R.assumptions += ["a first piece that is not the whole file has the length of the limit (shown for the first piece), so the buffer has it as well", "response_writer is C26; asio calls each completion handler once"]
    R.count('exits of send', sends(prog, R))
    R.count('exits of handle_write', written(prog, R))
    R.count('exits of DiskFile', files(prog, R))
