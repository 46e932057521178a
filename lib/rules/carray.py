"""The C structures handed to callers, read back from the abstract memory at an exit."""
from rules.common import *
from rules.shapes import *

def members(P, rec):
    if rec not in P.records: raise AnalysisError('structure %s not found' % rec)
    return {m['n']: m for m in lib.fields(P, P.records[rec])}
def get(P, e, s, base, rec, name):
    m = members(P, rec).get(name)
    if m is None: raise AnalysisError('%s has no member %s' % (rec, name))
    return e.load(s, ptr(base, m['off']), m['s'], 8 * m['s'])
def count(t):
    """heap bookkeeping kept in the state: how often the object was released"""
    return mk('released', t)
def release_model(e, s, i, name, args, rt):
    """free and delete: which object, how often and with which function"""
    k = {'free': 'free', '_ZdlPv': 'delete', '_ZdlPvm': 'delete', '_ZdaPv': 'delete[]', '_ZdaPvm': 'delete[]'}.get(name)
    if k:
        p = args[0]
        if isc(p) and cv(p) == 0: return [('ret', s, None)]
        n = s.ver.get(count(p))
        s.ver[count(p)] = mk('rel', k, 1 if n is None else n.a[1] + 1 if n.op == 'rel' else 99)
        return [('ret', s, None)]
    return nolock(e, s, i, name, args, rt)
def released(s, p):
    n = s.ver.get(count(p))
    return (None, 0) if n is None else (n.a[0], n.a[1]) if n.op == 'rel' else ('?', -1)
def stray(e, s):
    """writes outside of the heap blocks whose size is known: (block, offset, size)"""
    out = []
    for b, cells in s.mem.items():
        if b.op != 'heap': continue
        n = e.heap.get(b)
        if n is None or not isc(n): continue
        for o, c in cells.items():
            if isinstance(o, int) and (o < 0 or o + c[0] > cv(n)): out.append((b, o, cv(n)))
    return out
class Points(Shape):
    """a trace whose points also have known numbers of auxiliary values"""
    def __init__(self, P, base, points, aux):
        Shape.__init__(self, P, base, points)
        self.aux = [[mk('aux', k, j) for j in range(n)] for k, n in enumerate(aux)]
        self.TF = field(P, 'Trace', 'getTypes')
        self.V = {f.name: f for f in fields(P, 'TraceVarInfo')}
    def init(self, e, s):
        Shape.init(self, e, s)
        for k, a in enumerate(self.aux): s.ver[ptr(mk('fwget', self.data[k]), self.D['aux'].off)] = lib.vec(e, a, 8)
    def var(self, k, j, name):
        f = self.V[name]; b, o = split(ptr(mk('fwget', self.vars[k][j]), f.off)); return mk('mem0', b, o, f.sz, 0, w=8 * f.sz)
    def typename(self, e, s, k, j):
        """name index of the type of the variable, in the trace's dictionary"""
        v = lib.vbeg(mk('cont0', ptr(self.base, self.TF.off), 0)); esz = self.P.records['TypeDescription']['s']
        f = field(self.P, 'TypeDescription', 'getNameIndex')
        return e.load(s, ptr(gep(v, 0, [(cast('zext', 64, self.ty(k, j)), esz)]), f.off), f.sz, 8 * f.sz)
FIELDS = {'value': 'value', 'format': 'typeformat', 'var_name_index': 'nameindex', 'size': 'size', 'buffer_size': 'buffersize', 'has_buffer_size': 'has-buffer-size'}
def judge_points(c, P, e, s, p, sh, ks, rule, what, loc):
    """the array at p holds exactly the points ks of the shape"""
    if not ks:
        c.ok(rule, 1, what); return
    ps = P.records['c_trace_point_struct']['s']; vs = P.records['c_trace_var_info_struct']['s']
    if isc(p): c.bad(rule, what + ': no array', loc, repr(p)); return
    def room(b, n, w):
        h = e.heap.get(b)
        if h is None or not isc(h): c.unknown(rule, '%s: size of %s (%r)' % (what, w, h), loc); return False
        return c.check(cv(h) >= n, rule, '%s: %s has room for %d bytes' % (what, w, n) if cv(h) >= n else '%s: %s has %d bytes where %d are needed' % (what, w, cv(h), n), loc)
    def cmp(got, want, w):
        if got is want: c.ok(rule, 1, '%s: %s' % (what, w)); return
        if got.op == 'uninit': c.bad(rule, '%s: %s is left uninitialized' % (what, w), loc); return
        r = same(e, got, want)
        if r is False or got.op in ('stmt', 'aux', 'counter', 'idx') or got.op in ('trunc', 'zext', 'sext') and got.a[0].op in ('mem0', 'stmt', 'aux'): c.bad(rule, '%s: %s is something else' % (what, w), loc, '%r instead of %r' % (got, want))
        else: c.unknown(rule, '%s: %s: %r' % (what, w, got), loc)
    if not room(p, len(ks) * ps, 'the array of points'): return
    for b, o, n in stray(e, s): c.bad(rule, '%s: a write at offset %d of a block of %d bytes' % (what, o, n), loc)
    for i, k in enumerate(ks):
        b = ptr(p, i * ps); g = lambda n: get(P, e, s, b, 'c_trace_point_struct', n)
        cmp(g('statement'), sh.st[k], 'statement id of point %d' % i)
        nv, na = g('n_vars'), g('n_aux')
        ok = True
        for t, n, w in ((nv, len(sh.vars[k]), 'variables'), (na, len(sh.aux[k]), 'auxiliary values')):
            if isc(t): ok &= c.check(cv(t) == n, rule, '%s: number of %s of point %d' % (what, w, i) + ('' if cv(t) == n else ' is %d instead of %d' % (cv(t), n)), loc)
            else: cmp(t, C(n, t.w), 'number of %s of point %d' % (w, i)); ok = False
        if not ok: continue
        av, vv = g('aux'), g('vars')
        if sh.aux[k]:
            if not isc(av) and room(av, 8 * len(sh.aux[k]), 'the array of auxiliary values of point %d' % i):
                for j, a in enumerate(sh.aux[k]): cmp(e.load(s, ptr(av, 8 * j), 8, 64), a, 'auxiliary value %d of point %d' % (j, i))
            elif isc(av): c.bad(rule, '%s: no array of auxiliary values of point %d' % (what, i), loc)
        if sh.vars[k]:
            if isc(vv): c.bad(rule, '%s: no array of variables of point %d' % (what, i), loc); continue
            if not room(vv, vs * len(sh.vars[k]), 'the array of variables of point %d' % i): continue
            for j in range(len(sh.vars[k])):
                vb = ptr(vv, vs * j)
                for m, f in FIELDS.items(): cmp(get(P, e, s, vb, 'c_trace_var_info_struct', m), sh.var(k, j, f), '%s of variable %d of point %d' % (m, j, i))
                cmp(get(P, e, s, vb, 'c_trace_var_info_struct', 'type_name_index'), sh.typename(e, s, k, j), 'type_name_index of variable %d of point %d' % (j, i))
        owners = [x for x in (av, vv) if x.op not in ('c', 'uninit')]
        c.check(all(x.op == 'heap' for x in owners) and len(set(owners)) == len(owners), rule, '%s: arrays of point %d are its own and allocated with the malloc family' % (what, i), loc, repr(owners))
    c.check(p.op == 'heap', rule, what + ': allocated with the malloc family', loc, repr(p))
