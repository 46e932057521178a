"""Input stream typestate shared by the reader rules: ts[0] is 'G' (good), 'E' (hit the end) or 'B' (failed otherwise)."""
import lib
from terms import *

ISTREAM = ('std::istream', 'std::basic_istream', 'std::basic_ios', 'std::ios', 'std::ios_base')
def is_read(e, name):
    sg = lib.sig(e.prog, name)
    return sg.cls in ISTREAM and sg.name in ('read', 'get', 'readsome', 'getline', 'ignore') or sg.name == 'operator>>' and sg.cls in ISTREAM + ('std',) and 'istream' in sg.full
def put(e, s, p, n, v):
    if isc(n):
        if cv(n): e.store(s, p, cv(n), v(cv(n)))
    else:
        lo, hi = e.krange(s, n)
        if hi <= 64: e.store(s, p, hi, v(hi))
        else: e.havoc(s, p, e.cur)
def has_uninit(e, s, p, n):
    hi = cv(n) if isc(n) else e.krange(s, n)[1]
    if not hi or hi > 64: return False
    v = e.load(s, p, hi, 8 * hi)
    own = getattr(e, 'own', None)
    return any(x.op in ('uninit', 'undef') or own is not None and x.op == 'mem0' and root(x.a[0]) is own and x.a[3] == 0 for x in subterms(v))
def call(e, s, i, name, args, rt, kinds='EB', onread=None):
    """outcomes of a stream operation, or None if it is none; onread(state before, kind, args) -> new ts"""
    sg = lib.sig(e.prog, name)
    if sg.cls not in ISTREAM: return None
    st = s.ts[0]
    w = e.width(i.get('t'))
    n = sg.name
    if n == 'good': return [('ret', s, C(st == 'G', w))]
    if n == 'eof': return [('ret', s, C(st == 'E', w))]
    if n in ('fail', 'operator!'): return [('ret', s, C(st != 'G', w))]
    if n == 'bad': return [('ret', s, C(st == 'B', w))]
    if n.startswith('operator bool'): return [('ret', s, C(st == 'G', w))]
    if n == 'rdstate': return [('ret', s, C({'G': 0, 'E': 6, 'B': 4}[st], w))]
    if n == 'gcount': return [('ret', s, s.ver.get(mk('gcount'), rt))]
    if n in ('clear', 'setstate', 'exceptions'):
        if n == 'clear': s.ts = ('G',) + s.ts[1:]
        return [('ret', s, None)]
    if n == 'peek':
        out = []
        for k in (['G'] if st == 'G' else []) + [x for x in kinds if st in ('G', x)]:
            s2 = s.copy(); s2.ts = (k,) + tuple(s2.ts[1:])
            out.append(('ret', s2, cast('zext', w, mk('in', rt, 0, 1, 0, w=8)) if k == 'G' else C(-1, w)))
        return out
    if n in ('read', 'get'):
        this = args[0]
        if n == 'read': p, cnt = args[1], args[2]
        elif len(args) == 2: p, cnt = args[1], C(1)
        else: p, cnt = None, C(1)
        out = []
        for k in (['G'] if st == 'G' else []) + [x for x in kinds if st in ('G', x)]:
            s2 = s.copy()
            ts = onread(s2, k, p, cnt) if onread else s2.ts
            s2.ts = (k,) + tuple(ts[1:])
            if k == 'G':
                if p is not None: put(e, s2, p, cnt, lambda m: e.orc(mk('in', rt, 0, m, 0, w=8 * m)))
                s2.ver[mk('gcount')] = cnt
                res = this if p is not None else cast('zext', w, e.orc(mk('in', rt, 0, 1, 0, w=8)))
            else:
                if p is not None and not has_uninit(e, s2, p, cnt): put(e, s2, p, cnt, lambda m: mk('part', rt, m, w=8 * m))
                s2.ver[mk('gcount')] = mk('partn', rt)
                res = this if p is not None else C(-1, w)
            out.append(('ret', s2, res))
        return out
    return None
