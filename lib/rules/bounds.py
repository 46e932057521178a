"""capacity and index arguments shared by the memory rules"""
from rules.common import *

def strip(t):
    while t.op in ('zext', 'sext'): t = t.a[0]
    return t
def known_lt(e, s, a, b):
    """a < b is known (a, b of possibly different widths)"""
    for x in (a, strip(a)):
        for y in (b, strip(b)):
            if x.w == y.w and e.known(s, icmp('ult', x, y)) is TRUE: return True
    if b.op in ('zext',) and a.w == 64 and a.op != 'zext':
        pass
    a1 = cast('zext', 64, strip(a)) if strip(a).w < 64 else strip(a); b1 = cast('zext', 64, strip(b)) if strip(b).w < 64 else strip(b)
    if e.known(s, icmp('ult', a1, b1)) is TRUE: return True
    # b = c + 1 without wrap and a <= c
    q = strip(b)
    if q.op == 'add' and isc(q.a[1]) and cv(q.a[1]) == 1 and e.range(s, q.a[0])[1] < (1 << q.w) - 1:
        cc = q.a[0]
        for x in (a, strip(a)):
            if x.w == cc.w and (x is cc or e.known(s, icmp('ult', cc, x)) is FALSE): return True
    # a = b - k, k <= b
    p = strip(a)
    if p.op == 'add' and isc(p.a[1]) and strip(p.a[0]) is q and sgn(cv(p.a[1]), p.w) < 0 and e.krange(s, q)[0] >= -sgn(cv(p.a[1]), p.w): return True
    la, ha = e.krange(s, a); lb, hb = e.krange(s, b)
    return ha < lb
def member(prog, cls, off):
    """(name, remaining bytes) of the innermost member of class cls at off"""
    r = prog.records.get(cls)
    if not r: return None
    for m in lib.fields(prog, r):
        if m['off'] <= off < m['off'] + m['s']:
            nm = lib.ditname(m['t'])
            rr = prog.records.get(nm)
            if rr and rr['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
                x = member(prog, nm, off - m['off'])
                if x: return x
            return m.get('n', nm), m['off'] + m['s'] - off
    return None
def capacity(e, prog, p, cls=None):
    """('const', bytes, what) | ('term', term, scale, what) | None: room from the root of p; for members from p itself"""
    r = root(p); b, o = split(p)
    if r.op == 'alloca':
        al = e.alloca.get(r.a[0])
        if al is None: return None
        at = re.sub(r'\.\d+$', '', str(al.get('at', '')).replace('%', '').replace('class.', '').replace('struct.', '').strip('"'))
        if b is r and at in prog.records:
            m = member(prog, at, o)
            if m: return ('here', m[1], '%s::%s' % (at, m[0]))
        return ('const', int(al['size']), 'a local variable')
    if r is A[0] and cls and b is r:
        m = member(prog, cls, o)
        if m: return ('here', m[1], '%s::%s' % (cls, m[0]))
        return None
    if r.op in ('new', 'heap') and r in e.heap:
        t = e.heap[r]
        if isc(t): return ('const', cv(t), 'a heap block')
        return ('term', t, 1, 'a heap block')
    if r.op == 'vbeg':
        k = getattr(e, 'vtype', {}).get(r.a[0])
        if k: return ('term', lib.vsize(r.a[0]), k, 'a vector')
    return None
def fits(e, s, p, n, cap):
    """True: the n bytes at p lie inside; False: not shown; n term"""
    b, o = split(p)
    vs = b.a[1] if b.op == 'idx' else ()
    nl, nh = e.krange(s, n)
    if cap[0] == 'here': return not vs and nh <= cap[1]
    hi = o + sum(e.krange(s, t)[1] * k for t, k in vs) + nh
    lo = o + sum(e.krange(s, t)[0] * k for t, k in vs)
    if any(k < 0 for _, k in vs): return False
    if cap[0] == 'const': return lo >= 0 and hi <= cap[1]
    t, sc = cap[1], cap[2]
    if not vs and o == 0 and (strip(n) is strip(t) and sc == 1): return True
    if not vs and o == 0 and sc == 1 and e.krange(s, t)[0] >= nh: return True
    if not vs and o >= 0 and e.krange(s, t)[0] * sc >= o + nh: return True
    u = strip(t)
    if u.op == 'mul' and isc(u.a[1]): t, sc = u.a[0], sc * cv(u.a[1])
    if len(vs) == 1 and vs[0][1] == sc and 0 <= o and o + nh <= sc: return known_lt(e, s, vs[0][0], t)
    # last element: index n, offset -1
    if len(vs) == 1 and vs[0][1] == sc and strip(vs[0][0]) is strip(t) and o < 0 and o + nh <= 0: return e.krange(s, t)[0] * sc + o >= 0
    return False
