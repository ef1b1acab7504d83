"""Abstract semantics of the library calls pion makes (std::, boost::, libc).

Anything not listed: const methods and by-value functions are pure functions of the
contents of their arguments, non-const methods update the object functionally, and
arguments passed by non-const reference or pointer are havocked.
"""
import re
from .eng import (TAG, STRT, LOCKT, PTRT, base_type, is_ref, add, sub, mul, lin, CTYPE, strip_targs)


def B(t): TAG[t] = ('i', 1, False); return t


def isL(v): return isinstance(v, tuple) and len(v) > 1 and v[0] == 'L'


def cstr(E, S, v):
    """content of a C string / std::string argument"""
    if isL(v):
        c = E.content(S, v[1])
        return c
    if isinstance(v, tuple) and v[0] == 'strp': return ('str', v[1])
    if isinstance(v, tuple) and v[0] == 'str': return v
    if isinstance(v, tuple) and v[0] == 'app' and v[1] in ('c_str', 'data'): return v[2]
    if isinstance(v, tuple) and 'el' in [x[1][0] for x in lin(v)[1] if isinstance(x, tuple) and x[0] == 'addr']:
        # a local or static array whose cells are known up to its terminator
        out = []
        for i in range(64):
            x = E.read(S, ('d', add(v, i)), None)
            if x == 0: return E.cat(*[('chr', y) for y in out]) if out else ('str', '')
            if isinstance(x, tuple) and ('d', add(v, i)) not in S.mem: break
            out.append(x)
    t = ('app', 'cstr', v)
    TAG[t] = 'str'
    return t


def scalar(E, S, v):
    return E.content(S, v[1]) if isL(v) else v


def eq(E, a, b):
    if a == b: return 1
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'str' and b[0] == 'str': return int(a[1] == b[1])
    if isinstance(a, int) or isinstance(b, int): return E.mkcmp(None, '==', a, b)
    if repr(a) > repr(b): a, b = b, a
    return B(('eq', a, b))


def model(E, S, fr, n, inf):
    cls = inf['cls'] or ''
    nm = inf['nm'] or ''
    sfn = inf['sfn']
    a = inf['args']
    obj = inf['obj']
    nid = inf['nid']
    if cls.startswith(STRT): return string(E, S, fr, n, inf, nm, a, obj, nid)
    if cls.startswith(LOCKT): return lockt(E, S, fr, n, inf, nm, a, obj, nid)
    if cls.startswith(PTRT): return smart(E, S, fr, n, inf, nm, a, obj, nid)
    if cls.startswith('boost::function') and nm in ('empty', 'operator!') and obj is not None and not a and not inf.get('ctor'):
        return [(S, E.mknot(boolof(E, E.content(S, obj))))]
    if cls == 'boost::logic::tribool' or sfn.startswith('boost::logic::'): return tribool(E, S, fr, n, inf, nm, a, obj, nid)
    if sfn in ('boost::mutex::lock', 'std::mutex::lock') and obj is not None:
        E.lock(S, fr, obj, n); return [(S, 0)]
    if sfn in ('boost::mutex::unlock', 'std::mutex::unlock') and obj is not None:
        E.unlock(S, fr, obj, n); return [(S, 0)]
    if sfn in ('std::operator==', 'std::operator!=') and len(a) == 2 and any(STRT in p for p in n['pt']):
        t = eq(E, cstr(E, S, a[0]), cstr(E, S, a[1]))
        return [(S, t if nm == 'operator==' else E.mknot(t))]
    if sfn == 'std::operator+' and len(a) == 2 and STRT in n['type']:
        parts = []
        for i, v in enumerate(a):
            if base_type(n['pt'][i]) == 'char': parts.append(('chr', scalar(E, S, v)))
            else: parts.append(cstr(E, S, v))
        return [(S, E.tmp(S, fr, nid, E.cat(*parts)))]
    if nm in ('operator==', 'operator!=') and (len(a) == 2 or (obj is not None and len(a) == 1)):
        l = list(a) if obj is None else [('L', obj)] + list(a)
        x, y = scalar(E, S, l[0]), scalar(E, S, l[1])
        if x is not None and y is not None:
            t = eq(E, x, y)
            return [(S, t if nm == 'operator==' else E.mknot(t))]
    if nm == 'operator!' and obj is not None and not a and not n.get('inroot'):
        c = E.content(S, obj)
        return [(S, E.mknot(boolof(E, c)))]
    if nm.startswith('operator ') and obj is not None and not a and not n.get('inroot'):
        # conversions: to bool-like (safe bool idiom) or bool
        t = n['type']
        if t == 'bool' or t.endswith('::*') or '(*)' in t or '::*)' in t:
            return [(S, boolof(E, E.content(S, obj)))]
    if sfn in ('isdigit', 'isalpha', 'isalnum', 'isxdigit', 'isspace', 'iscntrl', 'isupper', 'islower', 'isprint', 'isgraph',
               'ispunct', 'isblank', 'tolower', 'toupper') or (sfn.startswith('std::') and sfn[5:] in CTYPE):
        t = ('app', sfn.replace('std::', ''), scalar(E, S, a[0]))
        TAG[t] = ('i', 32, True)
        return [(S, t)]
    if sfn in ('boost::algorithm::iequals', 'boost::iequals', 'boost::algorithm::equals', 'boost::algorithm::starts_with', 'boost::algorithm::istarts_with') and len(a) >= 2:
        x, y = [cstr(E, S, v) if (isL(v) and STRT in n['pt'][i]) or (isinstance(v, tuple) and v[0] == 'strp') else
                (lambda c: ('str', c[1]) if isinstance(c, tuple) and c[0] in ('strp', 'str') else c)(scalar(E, S, v)) for i, v in enumerate(a[:2])]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'str' and y[0] == 'str':
            p_, q_ = (x[1].rstrip('\0'), y[1].rstrip('\0'))
            if 'iequals' in sfn or 'istarts' in sfn: p_, q_ = p_.lower(), q_.lower()
            return [(S, int(p_.startswith(q_) if 'starts' in sfn else p_ == q_))]
    if sfn in ('std::min', 'std::max') and len(a) >= 2:
        x, y = scalar(E, S, a[0]), scalar(E, S, a[1])
        le = E.mkcmp(S, '<=', x, y)
        outs = []
        for want in (True, False):
            s2 = E.assume(S, le, want)
            if s2 is None: continue
            if s2 is S: s2 = S.copy()
            pick = (x if want else y) if sfn == 'std::min' else (y if want else x)
            outs.append((s2, E.tmp(s2, fr, nid, pick)))
        return outs
    if sfn in ('std::move', 'std::forward', 'boost::ref', 'boost::cref') and len(a) == 1:
        return [(S, a[0])]
    if sfn in ('memcpy', 'memmove', 'memset', 'std::memcpy'):
        if hasattr(E.h, 'block_access'): E.h.block_access(E, S, fr, n, sfn, a)
        havoc_ptr(E, S, fr, n, a[0], nid)
        return [(S, a[0])]
    if sfn in ('boost::throw_exception',):
        return [('throw', S, base_type(n['pt'][0]))]
    if sfn in ('exit', 'abort', 'std::terminate', '_exit'): return []
    if cls.startswith('std::vector<char') and obj is not None and nm == 'push_back' and len(a) == 1:
        c = E.content(S, obj)
        x = a[0]
        if isL(x): x = E.read(S, x[1], ('i', 8, True))
        v = E.cat(c, ('chr', x))
        E.kill(S, obj)
        S.mem[obj] = v
        if hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, v)
        E.h.write(E, S, fr, obj, v, n)
        return [(S, 0)]
    if sfn in ('sprintf', 'snprintf', 'std::sprintf', 'std::snprintf') and len(a) >= 3:
        i = 1 if 'snprintf' in sfn else 0
        fmt = a[1 + i] if isinstance(a[1 + i], tuple) and a[1 + i][0] == 'strp' else None
        dst = a[0]
        m = re.match(r'^([^%]*)%(?:\.|0|2\.|0\.)2([Xx])$', fmt[1].rstrip('\0')) if fmt else None
        if m and len(a) == 3 + i and dst != 0:
            x = scalar(E, S, a[2 + i])
            r = S.rng(x) if not isinstance(x, int) else ((x, x),)
            if r and r[0][0] >= 0 and r[-1][1] <= 255:
                for j, c_ in enumerate(m.group(1)): E.write(S, fr, ('d', add(dst, j)), ord(c_), n)
                k_ = len(m.group(1))
                for j in (0, 1):
                    t = ('app', 'hexdigit', j, int(m.group(2) == 'X'), x)
                    TAG[t] = ('i', 8, True)
                    E.write(S, fr, ('d', add(dst, k_ + j)), t, n)
                E.write(S, fr, ('d', add(dst, k_ + 2)), 0, n)
                return [(S, k_ + 2)]
        havoc_ptr(E, S, fr, n, dst, nid)
        t = E.sym(fr, nid, ('i', 32, True), 'printf')
        return [(S, t)]
    if sfn in ('strtol', 'strtoul', 'strtoll', 'strtoull', 'std::strtol', 'std::strtoul', 'std::strtoll', 'std::strtoull') and len(a) == 3:
        if isinstance(a[1], tuple): havoc_ptr(E, S, fr, n, a[1], nid)
        tx = cstr(E, S, a[0])
        parts = tx[1:] if isinstance(tx, tuple) and tx[0] == 'cat' else (tx,)
        cells = []
        for q in parts:
            if q[0] == 'str': cells += [ord(c_) for c_ in q[1]]
            elif q[0] == 'chr': cells.append(q[1])
            else: cells = None; break
        if cells is not None and isinstance(a[2], int) and a[2] > 0:
            t = ('app', 'strtotxt', a[2]) + tuple(cells)
            TAG[t] = E.tag(n)
            return [(S, t)]
        t = ('app', 'strtonum', a[0], a[2])
        TAG[t] = E.tag(n)
        return [(S, t)]
    if nm in ('size', 'length') and obj is not None and not a and not n.get('inroot'):
        return [(S, E.size_of(E.content(S, obj)))]
    if nm == 'empty' and obj is not None and not a and not n.get('inroot') and not cls.startswith('boost::filesystem'):
        return [(S, E.mkcmp(S, '==', E.size_of(E.content(S, obj)), 0))]
    if nm == 'clear' and obj is not None and not a and not n.get('inroot') and cls.startswith('std::'):
        E.kill(S, obj)
        t = ('app', 'emptyc', strip_targs(cls)); TAG[t] = 'o'
        S.mem[obj] = ('str', '')
        E.h.write(E, S, fr, obj, ('str', ''), n)
        return [(S, 0)]
    if inf.get('ctor') and len(a) == 1 and 'iterator' in strip_targs(cls) and not n.get('copy'):
        S.mem[obj] = scalar(E, S, a[0])          # iterator to const_iterator
        return [(S, None)]
    if sfn in ('boost::algorithm::trim', 'boost::algorithm::trim_left', 'boost::algorithm::trim_right', 'boost::algorithm::to_lower', 'boost::algorithm::to_upper') and a and isL(a[0]):
        v = ('app', nm, E.content(S, a[0][1])); TAG[v] = 'str'
        E.write(S, fr, a[0][1], v, n)
        return [(S, 0)]
    if inf.get('ctor') and cls.startswith('std::') and not a and strip_targs(cls) in (
            'std::vector', 'std::map', 'std::set', 'std::list', 'std::unordered_map', 'std::unordered_multimap', 'std::multimap'):
        S.mem[obj] = ('str', '')
        return [(S, None)]
    return None


def boolof(E, c):
    if isinstance(c, int): return int(bool(c))
    if c[0] in ('cmp', 'not', 'and', 'or', 'eq'): return c
    if TAG.get(c) == 'p': return E.mkcmp(None, '!=', c, 0)
    if c[:2] == ('app', 'ctor:boost::system::error_code') and (len(c) == 2 or isinstance(c[2], int)): return int(len(c) > 2 and c[2] != 0)
    t = ('app', 'bool', c)
    return B(t)


def havoc_ptr(E, S, fr, n, v, nid):
    if isL(v):
        E.havoc(S, fr, v[1], nid); return
    if isinstance(v, int): return
    loc = E.deref(v)
    if loc[0] == 'd':
        # contents behind the pointer: every element of the same base is unknown now
        atoms = set(lin(v)[1])
        for l in [l for l in S.mem if l[0] == 'd' and atoms & set(lin(l[1])[1])]: del S.mem[l]
        e = E.sym(fr, nid, 'o', 'epoch')
        S.mem[('epoch',)] = e
    else: E.havoc(S, fr, loc, nid)


def string(E, S, fr, n, inf, nm, a, obj, nid):
    c = E.content(S, obj) if not inf.get('ctor') else None
    pt = n.get('pt', [])

    def setc(v, r=None):
        E.kill(S, obj)
        S.mem[obj] = v
        TAG.setdefault(v, 'str')
        E.h.write(E, S, fr, obj, v, n)
        return [(S, r if r is not None else ('L', obj))]

    def part(i):
        if base_type(pt[i]) == 'char': return ('chr', scalar(E, S, a[i]))
        return cstr(E, S, a[i])

    if inf.get('ctor'):
        args = [x for i, x in enumerate(a) if 'allocator' not in pt[i]]
        p2 = [p for p in pt if 'allocator' not in p]
        if not args: v = ('str', '')
        elif len(args) == 1: v = cstr(E, S, args[0])
        elif len(args) == 2 and base_type(p2[0]).endswith('*') and base_type(p2[1]) == 'unsigned long':
            x, ln = args[0], scalar(E, S, args[1])
            if isinstance(x, tuple) and x[0] == 'strp' and isinstance(ln, int): v = ('str', x[1][:ln])
            else:
                if hasattr(E.h, 'range_read'): E.h.range_read(E, S, fr, n, x, ln)
                v = ('rng', scalar(E, S, x), add(scalar(E, S, x), ln))
        elif len(args) == 2 and base_type(p2[0]).endswith('*') and base_type(p2[1]).endswith('*'):
            x, y = scalar(E, S, args[0]), scalar(E, S, args[1])
            if hasattr(E.h, 'range_read'): E.h.range_read(E, S, fr, n, x, sub(y, x))
            v = ('rng', x, y)
        elif len(args) == 2 and base_type(p2[0]) == 'unsigned long' and base_type(p2[1]) == 'char':
            k, c1 = scalar(E, S, args[0]), scalar(E, S, args[1])
            v = E.cat(*([('chr', c1)] * k)) if isinstance(k, int) and 1 <= k <= 64 else ('str', '') if k == 0 else ('app', 'fill', k, c1)
        else: v = ('app', 'strctor') + E.content_args(S, args)
        TAG[v] = 'str'
        S.mem[obj] = v
        return [(S, None)]
    if nm == 'operator=' or (nm == 'assign' and len(a) == 1):
        return setc(part(0))
    if nm in ('assign', 'append') and len(a) == 3 and STRT in pt[0] and base_type(pt[1]) == 'unsigned long':
        # a part of another string
        x, y = part(0), [scalar(E, S, v) for v in a[1:]]
        r = fold(E, S, x[1], 'substr', y, ['unsigned long', 'unsigned long']) if x[0] == 'str' else None
        if isinstance(r, str): v = ('str', r)
        else:
            v = ('app', 'substr', x) + tuple(y); TAG[v] = 'str'
        if nm == 'append' and hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, v)
        return setc(v if nm == 'assign' else E.cat(c, v))
    if nm in ('operator+=', 'push_back') or (nm == 'append' and len(a) == 1):
        if hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, part(0))
        return setc(E.cat(c, part(0)))
    if nm == 'append' and len(a) == 2:
        if base_type(pt[0]).endswith('*') and base_type(pt[1]) == 'unsigned long':
            x, ln = scalar(E, S, a[0]), scalar(E, S, a[1])
            if hasattr(E.h, 'range_read'): E.h.range_read(E, S, fr, n, x, ln)
            v = ('rng', x, add(x, ln)); TAG[v] = 'str'
            if hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, v)
            return setc(E.cat(c, v))
    if nm == 'append' and len(a) == 2 and isinstance(scalar(E, S, a[0]), int) and 0 <= scalar(E, S, a[0]) <= 64 and base_type(pt[1]) == 'char':
        for _ in range(scalar(E, S, a[0])):
            if hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, part(1))
            c = E.cat(c, part(1))
        return setc(c)
    if nm == 'append':
        v = ('app', 'appendx') + E.content_args(S, a); TAG[v] = 'str'
        if hasattr(E.h, 'append'): E.h.append(E, S, fr, n, obj, v)
        return setc(E.cat(c, v))
    if nm == 'assign' and len(a) == 2 and base_type(pt[0]).endswith('*') and base_type(pt[1]) == 'unsigned long':
        x, ln = scalar(E, S, a[0]), scalar(E, S, a[1])
        if hasattr(E.h, 'range_read'): E.h.range_read(E, S, fr, n, x, ln)
        v = ('rng', x, add(x, ln)); TAG[v] = 'str'
        return setc(v)
    if nm == 'assign' and len(a) == 2 and base_type(pt[0]) == 'unsigned long' and base_type(pt[1]) == 'char':
        k = scalar(E, S, a[0])
        v = E.cat(*([('chr', scalar(E, S, a[1]))] * k)) if isinstance(k, int) and 1 <= k <= 64 else ('str', '') if k == 0 else ('app', 'fill', k, scalar(E, S, a[1]))
        TAG[v] = 'str'
        return setc(v)
    if nm == 'clear' or nm == 'resize' and scalar(E, S, a[0]) == 0: return setc(('str', ''), 0)
    if nm == 'swap' and a and isL(a[0]):
        o = E.content(S, a[0][1])
        E.write(S, fr, a[0][1], c, n)
        return setc(o, 0)
    if nm == 'insert' and len(a) == 2 and a[0] == 0 and base_type(pt[0]) == 'unsigned long': return setc(E.cat(part(1), c))
    if nm == 'erase' and len(a) == 2 and base_type(pt[0]) == 'unsigned long' and a[0] == 0 and \
            isinstance(scalar(E, S, a[1]), int) and scalar(E, S, a[1]) & 0xffffffffffffffff == 0xffffffffffffffff:
        return setc(('str', ''))
    if nm in ('size', 'length'): return [(S, E.size_of(c))]
    if nm == 'empty': return [(S, E.mkcmp(S, '==', E.size_of(c), 0))]
    if nm in ('c_str', 'data'):
        if c[0] == 'str':
            t = ('strp', c[1])
        else: t = ('app', 'c_str', c)
        TAG[t] = 'p'
        return [(S, t)]
    if nm in ('reserve', 'shrink_to_fit'): return [(S, 0)]
    if nm == 'compare' and len(a) == 1:
        t = eq(E, c, cstr(E, S, a[0]))
        r = ('ite', t, 0, 1) if not isinstance(t, int) else 1 - t
        t2 = ('app', 'strcmp', c, cstr(E, S, a[0])); TAG[t2] = ('i', 32, True)
        return [(S, ('not', t) if not isinstance(t, int) else r)]
    if c[0] == 'str':
        r = fold(E, S, c[1], nm, [cstr(E, S, x) if isL(x) and i < len(pt) and STRT in pt[i] or isinstance(x, tuple) and x[0] == 'strp' else scalar(E, S, x) for i, x in enumerate(a)], pt)
        if isinstance(r, str): return [(S, E.tmp(S, fr, nid, ('str', r)))]
        if isinstance(r, int) and n.get('w') is not None and nm != 'operator[]': return [(S, r)]
    if nm in ('operator[]', 'at'):
        i = scalar(E, S, a[0])
        if c[0] == 'str' and isinstance(i, int) and 0 <= i <= len(c[1]) and n.get('cm'):
            ch = ord(c[1][i]) if i < len(c[1]) else 0
            return [(S, E.tmp(S, fr, nid, ch - 256 if ch > 127 else ch))]
        if hasattr(E.h, 'str_index'): E.h.str_index(E, S, fr, n, obj, c, i)
        v = ('app', 'chr', c, i); TAG[v] = ('i', 8, True)
        loc = ('f', obj, ('ch', i))
        return [(S, ('L', ('sc', obj, i)))] if False else [(S, E.tmp(S, fr, nid, v))] if n.get('cm') else [(S, ('L', loc))]
    if nm in ('begin', 'end', 'find', 'substr', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'back', 'front',
              'capacity', 'max_size', 'rbegin', 'rend', 'get_allocator', 'find_last_not_of', 'compare'):
        t = ('app', nm, c) + E.content_args(S, a)
        if n.get('w') is not None or n['type'].endswith('*'):
            TAG[t] = E.tag(n)
            return [(S, t)]
        TAG[t] = 'o' if nm != 'substr' else 'str'
        return [(S, E.tmp(S, fr, nid, t))]
    # other mutators
    if c[0] == 'str' and nm in ('resize', 'pop_back', 'erase', 'insert', 'replace'):
        x = [cstr(E, S, v) if isL(v) and i < len(pt) and STRT in pt[i] or isinstance(v, tuple) and v[0] == 'strp' else scalar(E, S, v) for i, v in enumerate(a)]
        r = mutate(c[1], nm, x, pt)
        if r is not None: return setc(('str', r), None if nm != 'resize' and nm != 'pop_back' else 0)
    v = ('app', 'str:' + nm, c) + E.content_args(S, a)
    TAG[v] = 'str'
    if nm in ('insert', 'replace', 'resize', 'erase', 'swap', 'pop_back'):
        return setc(v)
    return None


NPOS = (1 << 64) - 1


def mutate(s, nm, a, pt):
    """a mutating member of a constant string with constant arguments; None: not folded"""
    a = [x[1] if isinstance(x, tuple) and x and x[0] in ('str', 'strp') else x for x in a]
    if any(isinstance(x, tuple) for x in a) or any('iterator' in p for p in pt): return None
    if nm == 'pop_back': return s[:-1] if s else None
    if nm == 'resize' and a:
        k = a[0] & NPOS
        return s[:k] if k <= len(s) else s + (chr(a[1] & 255) if len(a) > 1 else '\0') * (k - len(s)) if k < 4096 else None
    if nm == 'erase':
        p = a[0] & NPOS if a else 0
        if p > len(s): return None
        return s[:p] + (s[p + (a[1] & NPOS):] if len(a) > 1 else '')
    if nm == 'insert' and len(a) == 2 and isinstance(a[1], str) and 0 <= a[0] <= len(s): return s[:a[0]] + a[1] + s[a[0]:]
    if nm == 'replace' and len(a) == 3 and isinstance(a[2], str) and 0 <= a[0] <= len(s): return s[:a[0]] + a[2] + s[a[0] + (a[1] & NPOS):]
    return None


def fold(E, S, s, nm, a, pt):
    """const members of a constant string"""
    a = [x[1] if isinstance(x, tuple) and x[0] == 'str' else x for x in a]
    if any(isinstance(x, tuple) for x in a): return None
    a = [chr(x & 255) if isinstance(x, int) and i < len(pt) and base_type(pt[i]) == 'char' else x for i, x in enumerate(a)]
    if nm in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of') and a and isinstance(a[0], str) and len(a) <= 2:
        pos = a[1] if len(a) > 1 else None
        if pos is not None: pos &= NPOS
        if nm == 'find': r = s.find(a[0], pos or 0) if (pos or 0) <= len(s) else -1
        elif nm == 'rfind': r = s.rfind(a[0], 0, len(s) if pos is None else min(len(s), pos + len(a[0])))
        elif nm == 'find_first_of': r = next((i for i in range(pos or 0, len(s)) if s[i] in a[0]), -1)
        elif nm == 'find_first_not_of': r = next((i for i in range(pos or 0, len(s)) if s[i] not in a[0]), -1)
        else: r = next((i for i in range(min(len(s) - 1, len(s) if pos is None else pos), -1, -1) if s[i] in a[0]), -1)
        return r if r >= 0 else NPOS
    if nm == 'substr' and 1 <= len(a) <= 2 and all(isinstance(x, int) for x in a):
        if a[0] > len(s): return None
        return s[a[0]:] if len(a) == 1 or a[1] & NPOS >= len(s) else s[a[0]:a[0] + (a[1] & NPOS)]
    if nm == 'substr' and not a: return s
    if nm == 'compare' and len(a) == 3 and isinstance(a[2], str) and isinstance(a[0], int) and isinstance(a[1], int):
        x = s[a[0]:a[0] + a[1]]
        return (x > a[2]) - (x < a[2])
    if nm == 'compare' and len(a) == 1 and isinstance(a[0], str): return (s > a[0]) - (s < a[0])
    return None


def lockt(E, S, fr, n, inf, nm, a, obj, nid):
    if inf.get('ctor'):
        if not a:
            S.mem[obj] = ('lock', None, 0)
            return [(S, None)]
        if n.get('copy'): return None
        m = a[0][1] if isL(a[0]) else E.deref(a[0])
        defer = len(a) > 1 and ('defer' in n['pt'][1] or 'try_to' in n['pt'][1])
        adopt = len(a) > 1 and 'adopt' in n['pt'][1]
        S.mem[obj] = ('lock', m, 0 if defer else 1)
        if not defer:
            if adopt: S.locks = S.locks + (m,) if m not in S.locks else S.locks
            else: E.lock(S, fr, m, n)
        return [(S, None)]
    v = S.mem.get(obj)
    if not v or v[0] != 'lock':
        v = ('lock', E.sym(fr, nid, 'o', 'mutex'), None)
    if nm == 'unlock':
        if v[2]: E.unlock(S, fr, v[1], n)
        S.mem[obj] = ('lock', v[1], 0)
        return [(S, 0)]
    if nm in ('lock', 'try_lock'):
        E.lock(S, fr, v[1], n)
        S.mem[obj] = ('lock', v[1], 1)
        return [(S, 0)]
    if nm == 'owns_lock' or nm.startswith('operator '):
        return [(S, 1 if v[2] else 0)]
    if nm == 'release':
        S.mem[obj] = ('lock', None, 0)
        return [(S, 0)]
    if nm == 'mutex': return [(S, E.addr(v[1]))]
    return None


def smart(E, S, fr, n, inf, nm, a, obj, nid):
    """smart pointers: the content is the raw pointer"""
    if inf.get('ctor'):
        if not a: v = 0
        else: v = scalar(E, S, a[0])
        if isinstance(v, tuple) and v not in TAG: TAG[v] = 'p'
        S.mem[obj] = v
        return [(S, None)]
    c = E.content(S, obj)
    if isinstance(c, tuple): TAG[c] = 'p'
    if nm in ('get', 'operator->'): return [(S, c)]
    if nm == 'operator*': 
        E.h.deref(E, S, fr, c, n, 'obj')
        return [(S, ('L', E.deref(c)))]
    if nm == 'operator[]':
        return [(S, ('L', E.deref(add(c, scalar(E, S, a[0])))))]
    if nm == 'operator!': return [(S, E.mkcmp(S, '==', c, 0))]
    if nm.startswith('operator ') : return [(S, E.mkcmp(S, '!=', c, 0))]
    if nm == 'reset' or nm == 'operator=':
        v = scalar(E, S, a[0]) if a else 0
        if isinstance(v, tuple) and v not in TAG: TAG[v] = 'p'
        E.write(S, fr, obj, v, n)
        return [(S, ('L', obj))]
    if nm == 'swap' and a and isL(a[0]):
        o = E.content(S, a[0][1])
        E.write(S, fr, a[0][1], c, n)
        E.write(S, fr, obj, o, n)
        return [(S, 0)]
    if nm == 'unique': return [(S, B(('app', 'unique', c)))]
    if nm == 'use_count': 
        t = E.sym(fr, nid, ('i', 64, True), 'usecount')
        return [(S, t)]
    return None


def tribool(E, S, fr, n, inf, nm, a, obj, nid):
    """0 false, 1 true, 2 indeterminate"""
    if inf.get('ctor'):
        if not a: v = 0
        elif n['pt'][0] == 'bool' or base_type(n['pt'][0]) == 'bool': v = scalar(E, S, a[0])
        else: v = 2
        S.mem[obj] = v
        return [(S, None)]
    if inf['sfn'] == 'boost::logic::indeterminate' and a:
        return [(S, E.mkcmp(S, '==', scalar(E, S, a[0]), 2))]
    if nm == 'operator=' and a:
        E.write(S, fr, obj, scalar(E, S, a[0]), n)
        return [(S, ('L', obj))]
    if nm.startswith('operator ') or nm == 'safe_bool':
        c = E.content(S, obj)
        TAG.setdefault(c, ('i', 2, False)) if isinstance(c, tuple) else None
        return [(S, E.mkcmp(S, '==', c, 1))]
    if nm in ('operator==', 'operator!=') and len(a) == 2:
        x, y = scalar(E, S, a[0]), scalar(E, S, a[1])
        for p, q in ((x, y), (y, x)):
            if isinstance(q, tuple) and q[0] == 'fn': return [(S, E.tmp(S, fr, nid, 2))]
        outs = []
        ind = []
        for v in (x, y):
            if isinstance(v, tuple) and TAG.get(v) in ('o', None): TAG[v] = ('i', 2, False)
        for s1, kx in split3(E, S, x):
            for s2, ky in split3(E, s1, y):
                if kx == 2 or ky == 2: r = 2
                else: r = int((kx == ky) == (nm == 'operator=='))
                s3 = s2.copy()
                outs.append((s3, E.tmp(s3, fr, nid, r)))
        return outs
    if nm == 'operator!' and a:
        outs = []
        for s1, k in split3(E, S, scalar(E, S, a[0])):
            s1 = s1.copy()
            outs.append((s1, E.tmp(s1, fr, nid, {0: 1, 1: 0, 2: 2}[k])))
        return outs
    if nm in ('operator&&', 'operator||') and len(a) == 2:
        outs = []
        for s1, kx in split3(E, S, scalar(E, S, a[0])):
            for s2, ky in split3(E, s1, scalar(E, S, a[1])):
                if nm == 'operator&&': r = 0 if 0 in (kx, ky) else 2 if 2 in (kx, ky) else 1
                else: r = 1 if 1 in (kx, ky) else 2 if 2 in (kx, ky) else 0
                s3 = s2.copy()
                outs.append((s3, E.tmp(s3, fr, nid, r)))
        return outs
    return None


def split3(E, S, v):
    if isinstance(v, int): return [(S, v)]
    if v[0] in ('cmp', 'not', 'and', 'or', 'eq') or TAG.get(v) == ('i', 1, False):
        out = []
        for w in (True, False):
            s = E.assume(S, v, w)
            if s is not None: out.append((s, int(w)))
        return out
    if TAG.get(v) in ('o', None): TAG[v] = ('i', 2, False)
    out = []
    for k in (0, 1, 2):
        s = E.assume(S, E.mkcmp(S, '==', v, k), True)
        if s is not None: out.append((s, k))
    return out


PURE_FREE = ('boost::asio::buffer', 'boost::bind', 'std::make_pair', 'boost::algorithm::iequals', 'boost::lexical_cast',
             'boost::numeric_cast', 'boost::asio::transfer_all', 'boost::asio::transfer_at_least', 'boost::asio::transfer_at_least',
             'strlen', 'memcmp', 'strcmp', 'strncmp', 'pow', 'adler32', 'boost::filesystem::operator/', 'ntohs', 'ntohl', 'htons', 'htonl')
NONDET = ('time', 'rand', 'read', 'recv', 'universal_time', 'local_time', 'exists', 'is_directory', 'is_regular', 'is_open', 'eof', 'gcount',
          'good', 'fail', 'bad', 'geteuid', 'getuid', 'seteuid', 'dlopen', 'dlsym', 'dlclose', 'is_regular_file')
NOTHROW = ('size', 'length', 'empty', 'begin', 'end', 'get', 'operator->', 'operator*', 'operator!', 'operator bool', 'c_str', 'data',
           'clear', 'operator==', 'operator!=', 'what', 'value', 'unlock', 'notify_all', 'notify_one', 'swap', 'operator++', 'find')


def may_throw(E, n, inf):
    nm = inf['nm'] or ''
    if inf.get('ctor') and not inf['args']: return False
    if inf.get('ctor') and n.get('copy'): return False
    if nm in NOTHROW or nm.startswith('operator '): return False
    return True


def default(E, S, fr, n, inf):
    nm, sfn, a, obj, nid = inf['nm'] or '', inf['sfn'], inf['args'], inf['obj'], inf['nid']
    cls = inf['cls'] or ''
    pt = n.get('pt', [])
    fex = inf.get('fexpr')
    const = n.get('cm') or (obj is None)
    ca = E.content_args(S, a)
    ext = not n.get('inroot')
    det = ext and nm not in NONDET and (cls.startswith(('std::', '__gnu_cxx::', 'boost::filesystem::path', 'boost::iterators', 'boost::match_results',
                                                        'boost::system::', 'boost::function', 'boost::bind', 'boost::_bi', 'boost::array')) or sfn in PURE_FREE or
                                        sfn.startswith(('std::operator', '__gnu_cxx::operator', 'boost::operator', 'boost::system::',
                                                        'boost::iterators::operator', 'std::__detail::', 'boost::algorithm::')))
    if cls.startswith(('std::basic_istream', 'std::basic_ostream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_ios', 'std::basic_stringstream')): det = False
    if cls.startswith('boost::function') and nm == 'operator()': det = False
    oc = E.content(S, obj) if obj is not None and not inf.get('ctor') else None
    name = nm if not n.get('opc') else 'op' + n['opc']
    if det:
        res = ('app', name) + ((oc,) if oc is not None else ()) + ca
    else:
        res = E.sym(fr, nid, E.tag(n) if E.tag(n) != 'o' else 'o', name)
    if nm == 'operator=' and obj is not None and ext and len(a) == 1 and pt and strip_targs(base_type(pt[0])) == strip_targs(cls) and not cls.startswith('std::basic_o'):
        if cls.startswith('std::pair<') and isL(a[0]):
            E.copy_obj(S, fr, obj, a[0][1], n)
            return [(S, ('L', obj))]
        E.kill(S, obj)
        v = ca[0]
        S.mem[obj] = v
        E.h.write(E, S, fr, obj, v, n)
        return [(S, ('L', obj))]
    if cls == 'boost::system::error_code' and nm == 'clear' and obj is not None:
        v = ('app', 'ctor:boost::system::error_code')
        TAG[v] = 'o'
        S.mem[obj] = v
        E.h.write(E, S, fr, obj, v, n)
        return [(S, 0)]
    if cls == 'boost::system::error_code' and obj is not None and isinstance(oc, tuple) and oc[:2] == ('app', 'ctor:boost::system::error_code') and (len(oc) == 2 or isinstance(oc[2], int)):
        bad = int(len(oc) > 2 and oc[2] != 0)
        if nm in ('operator bool', 'failed', 'operator void (*)()') or nm.startswith('operator') and 'bool' in nm: return [(S, bad)]
        if nm == 'operator!': return [(S, 1 - bad)]
    if cls == 'boost::system::error_code' and nm == 'assign' and obj is not None and len(ca) == 2:
        v = ('app', 'ctor:boost::system::error_code') + ca
        TAG[v] = 'o'
        S.mem[obj] = v
        E.h.write(E, S, fr, obj, v, n)
        return [(S, 0)]
    # effects
    if inf.get('ctor'):
        res = ('app', 'ctor:' + (strip_targs(cls))) + ca
        TAG[res] = 'o'
        S.mem[obj] = res
        return [(S, None)]
    if obj is not None and not n.get('cm') and not n.get('sm'):
        if n.get('inroot'):
            modset(E, S, fr, n, inf, obj, nid)
        elif not pure_nonconst(nm, cls):
            E.kill(S, obj)
            v = ('app', 'm:' + name, oc) + ca if det else E.sym(fr, nid, 'o', ('m', name))
            TAG[v] = 'o'
            S.mem[obj] = v
            E.h.write(E, S, fr, obj, v, n)
    elif n.get('inroot') and fex is None:
        modset(E, S, fr, n, inf, obj, nid)
    for i, v in enumerate(a):
        t = pt[i] if i < len(pt) else ''
        if is_ref(t) and not t.startswith('const ') and isL(v) and sfn not in PURE_FREE and sfn not in ('boost::bind',) and not t.endswith('&&'):
            if v[1][0] == 'fn': continue
            E.havoc(S, fr, v[1], nid, 'out%d' % i)
            E.h.write(E, S, fr, v[1], S.mem[v[1]], n)
        elif t.endswith('*') and not t.startswith('const ') and not isL(v) and isinstance(v, tuple) and '(*)' not in t:
            if sfn in PURE_FREE: continue
            havoc_ptr(E, S, fr, n, v, nid)
    t = n.get('type', '')
    if n.get('lv'):
        if nm in ('operator=', 'operator+=', 'operator<<', 'operator>>', 'operator++', 'operator--', 'operator/=') and (obj is not None or a):
            return [(S, ('L', obj) if obj is not None else a[0])]
        TAG.setdefault(res, 'p')
        return [(S, ('L', ('d', ('app', 'ref:' + name) + ((oc,) if oc is not None else ()) + ca if det else res)))]
    if E.tag(n) == 'o' and t != 'void':
        if isinstance(res, tuple): TAG.setdefault(res, 'o')
        return [(S, E.tmp(S, fr, nid, res))]
    if isinstance(res, tuple): TAG.setdefault(res, E.tag(n))
    return [(S, res)]


def pure_nonconst(nm, cls):
    return nm in ('begin', 'end', 'find', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'equal_range', 'operator*', 'operator->', 'get',
                  'data', 'c_array', 'front', 'back', 'at', 'operator[]', 'next_layer', 'lowest_layer', 'pptr', 'gptr', 'pbase', 'eback',
                  'egptr', 'epptr', 'rdbuf', 'get_io_service', 'get_executor', 'operator()') and not (
        nm == 'operator[]' and 'map' in cls)


def modset(E, S, fr, n, inf, obj, nid):
    """an opaque repository function: havoc every field it may (transitively) assign"""
    fields = E.mods(n)
    if not fields: return
    for l in list(S.mem):
        if l[0] == 'f' and l[2] in fields:
            E.havoc(S, fr, l, nid)
    # fields of *this not yet materialised
    if obj is not None:
        for fq in fields:
            l = ('f', obj, fq)
            E.havoc(S, fr, l, nid)
