"""Shared scenario hooks for code that works on an http::message and an http::parser."""
from ..load import AnalysisError
from ..eng import Hooks, Engine, add, sub, TAG, lin
from ..step import retval, error_of, BUF

P = 'pion::http::parser::'
M = 'pion::http::message::'


def params(f):
    """[(type, abstract location)] of a function's parameters"""
    pn = {v['id']: v for v in f['vars']}
    return [(pn[pv]['type'], ('o', 'arg', pn[pv]['name'] or pv)) for pv in f['params']]


def set_arg(S, fr, f, i, v):
    """give parameter i the value v (inside a setup callback)"""
    pv = f['params'][i]
    t = {x['id']: x for x in f['vars']}[pv]['type']
    if t.rstrip().endswith('&'): S.mem[S.bind[(fr.id, pv)]] = v
    else: S.mem[('v', fr.id, pv)] = v


def param(f, what):
    for t, l in params(f):
        if what in t: return l
    raise AnalysisError("%s has no %s parameter any more" % (f['sfn'], what))


class Scen(Hooks):
    """One scenario: answers of the virtual and container queries on a message.

    headers: {name: present}; calls: {method name: constant | callable(E,S,info)}; the
    methods named in `events` are not entered but recorded in S.mon['ev'] in order."""
    unroll = 40
    max_states = 4000
    events = frozenset()

    def __init__(self, headers=None, calls=None, events=(), handler=None, iscls=None, events_cls=None):
        self.headers, self.calls, self.handler = headers or {}, calls or {}, handler
        self.events = frozenset(events)

    @staticmethod
    def ev(S, *e): S.mon['ev'] = S.mon.get('ev', ()) + (e,)

    def call(self, E, S, fr, n, info):
        nm, cls, obj = info['nm'] or '', info['cls'] or '', info['obj']
        if self.handler is not None and cls.startswith('boost::function') and obj is not None and obj[0] == 'f' and obj[2].endswith('m_payload_handler'):
            if nm == 'operator()':
                self.ev(S, 'handler', *info['args'])
                return [(S, 0)]
            if nm in ('empty', 'operator!'): return [(S, int(not self.handler))]
            if nm.startswith('operator '): return [(S, int(self.handler))]
        if obj is not None and obj[0] == 'f' and obj[2] in (M + 'm_headers',) and not info.get('ctor'):
            if nm in ('end', 'cend'): return [(S, E.tmp(S, fr, info['nid'], 0))]
            if nm in ('find', 'count') and info['args']:
                a = info['args'][0]
                key = E.content(S, a[1]) if a[0] == 'L' else a
                if isinstance(key, tuple) and key[0] == 'str' and key[1] in self.headers:
                    v = int(self.headers[key[1]])
                    return [(S, v)] if nm == 'count' else [(S, E.tmp(S, fr, info['nid'], v))]
        if n.get('inroot') or nm in self.calls:
            if nm in self.calls and not info.get('ctor'):
                c = self.calls[nm]
                r = c(E, S, info) if callable(c) else c
                if r is not None: return r if isinstance(r, list) else [(S, r)]
            if nm in self.events:
                self.ev(S, nm, *[x for x in info['args']])
                return [(S, 0)]
        return None


def evs(S): return S.mon.get('ev', ())
def names(S): return [e[0] for e in evs(S)]


def copied(E, S, info):
    """(destination, source, length) of a std::copy or std::copy_n call on bytes, else None"""
    if info['sfn'] not in ('std::copy', 'std::copy_n') or len(info['args']) != 3: return None
    x = [E.content(S, v[1]) if isinstance(v, tuple) and v and v[0] == 'L' else v for v in info['args']]
    d, src, ln = (x[2], x[0], sub(x[1], x[0])) if info['sfn'] == 'std::copy' else (x[2], x[0], x[1])
    if isinstance(src, tuple) and src[:2] in (('app', 'begin'), ('app', 'cbegin')):
        if isinstance(x[1], tuple) and x[1][:2] in (('app', 'end'), ('app', 'cend')) and x[1][2] == src[2]: ln = E.size_of(src[2])
        src = ('strp', src[2][1]) if src[2][0] == 'str' else ('app', 'c_str', src[2])
        TAG[src] = 'p'
    return d, src, ln
