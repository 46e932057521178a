"""Shared by the rules: where the logical fields of the public classes live (located through the public accessors)."""
from terms import *
import re, engine, lib
from engine import AnalysisError, locstr

GETTERS = {
 'TypeDescription': ['getNameIndex', 'getTypeFormat', 'getSize'],
 'TraceBufferSize': ['getAddress', 'getSize'],
 'TraceVarInfo': ['getValue', 'getNameIndex', 'getTypeIndex', 'getTypeFormat', 'getSize', 'getBufferSize', 'hasBufferSize'],
 'TracePointData': ['getBufferSizes', 'getVars', 'getAux'],
 'TracePoint': ['getCounter', 'getStatement', 'getData'],
 'Trace': ['getPoints', 'getNames', 'getTypes'],
 'TraceDB': ['getTraces'],
 'Predicate': ['getKind', 'getData', 'getChildren'],
 'FreeVariable': ['getAllowedTypes'],
 'EvaluatePredicate': ['getPredicate', 'getVariables'],
}
NAMES = {'getValue': 'value', 'hasBufferSize': 'has-buffer-size'}
def label(g): return NAMES.get(g, g[3:].lower() if g.startswith('get') else g)

class Field:
    __slots__ = ('name', 'kind', 'off', 'sz', 'rec')
    def __repr__(self): return '%s@%s' % (self.name, self.off)
    def at(self, e, s, base):
        """value of the field of the object at base in state s"""
        p = ptr(base, self.off)
        if self.kind == 'scalar': return e.load(s, p, self.sz, 8 * self.sz)
        if self.kind == 'record': return lib.record(e, s, p, e.prog.records[self.rec])
        return lib.content(e, s, p)
    def initial(self, base):
        p = ptr(base, self.off)
        if self.kind == 'scalar': 
            b, o = split(p); return mk('mem0', b, o, self.sz, 0, w=8 * self.sz)
        return mk('cont0', p, 0)
A = [mk('arg', i) for i in range(16)]
_f = {}
def field(prog, cls, g):
    k = (id(prog), cls, g)
    if k in _f: return _f[k]
    t = prog.field(cls, g)
    f = Field(); f.name = label(g); f.rec = None
    while t.op in ('trunc', 'zext') : t = t.a[0]
    if t.op == 'mem0' and t.a[0] is A[0]: f.kind = 'scalar'; f.off = t.a[1]; f.sz = t.a[2]
    elif t.op == 'fwget' and t.a[0].op == 'cont0' and root(t.a[0].a[0]) is A[0]: f.kind = 'content'; f.off = split(t.a[0].a[0])[1]; f.sz = 8
    elif root(t) is A[0]: f.kind = 'content'; f.off = split(t)[1]; f.sz = None
    else: raise AnalysisError('accessor %s::%s: field not located (%r)' % (cls, g, t))
    if f.kind == 'content':
        # a member which is itself a class of the repository
        r = prog.records.get(cls)
        if r:
            for m in lib.fields(prog, r):
                if m['off'] == f.off:
                    nm = lib.ditname(m['t'])
                    if nm in GETTERS: f.kind = 'record'; f.rec = nm
    _f[k] = f
    return f
def fields(prog, cls): return [field(prog, cls, g) for g in GETTERS[cls]]
def leaf_fields(prog, cls, off=0, pre=''):
    """logical fields with nested records expanded: (name, kind, offset, size)"""
    out = []
    for f in fields(prog, cls):
        if f.kind == 'record': out += leaf_fields(prog, f.rec, off + f.off, pre + f.name + '.')
        else:
            g = Field(); g.name = pre + f.name; g.kind = f.kind; g.off = off + f.off; g.sz = f.sz; g.rec = None
            out.append(g)
    return out
def which(fs, base, t):
    """the field of the object at base that the location term t (mem0/cont0) reads, with (lo, size) within it"""
    if t.op == 'mem0' and t.a[0] is split(base)[0]:
        o = t.a[1] - split(base)[1]; sz = t.a[2]
        for f in fs:
            if f.kind == 'scalar' and f.off <= o and o + sz <= f.off + f.sz: return f, o - f.off, sz
    if t.op == 'cont0':
        b, o = split(t.a[0]); bb, bo = split(base)
        if b is bb:
            for f in fs:
                if f.kind != 'scalar' and f.off == o - bo: return f, 0, 0
    return None
def reads(t):
    """location terms (initial memory / container contents) in t"""
    return [x for x in subterms(t) if x.op in ('mem0', 'cont0')]
def rooted(t, base):
    if t.op == 'mem0': return root(t.a[0]) is base
    if t.op == 'cont0': return root(t.a[0]) is base
    return False
def sources(e, t, seen=None):
    """terms that may flow into t (phis expanded)"""
    if seen is None: seen = set()
    if t in seen: return set()
    seen.add(t)
    if t.op == 'phi':
        r = set()
        for x in e.phisrc.get(t, ()): r |= sources(e, x, seen)
        return r
    return {t}
def closure(e, t):
    """all subterms of t, looking through phis"""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'phi': st += list(e.phisrc.get(x, ()))
        for y in x.a:
            if isinstance(y, Term): st.append(y)
            elif isinstance(y, tuple): st += [z for z in flat(y) if isinstance(z, Term)]
    return seen
def has_undef(e, t, own=None):
    """t may be (or contain) memory that was never written; own: raw storage of the object being built"""
    for x in closure(e, t):
        if x.op in ('uninit', 'cuninit', 'undef', 'undefv'): return x
        if own is not None and x.op in ('mem0', 'cont0') and root(x.a[0]) is own and (x.a[-1] == 0): return x
    return None

def same(e, v, o):
    """is value v the value o? True, False (definitely something else) or None (built in a way that is not followed)"""
    if v is o: return True
    if v.op in ('c', 'vempty', 'mapempty', 'uninit', 'cuninit', 'undef', 'moved', 'arg', 'mem0', 'cont0', 'str'): return False
    if v.op == 'in': return False
    cl = closure(e, v)
    if o in cl or any(x.op in ('phi', 'ev', 'evv', 'call', 'pcall', 'vpush', 'vcat', 'vresize', 'vn', 'hv') for x in cl): return None
    return False
def judge(c, e, v, o, rule, what, loc):
    r = same(e, v, o)
    if r is True: c.ok(rule, 1, what)
    elif r is False: c.bad(rule, what + ': it does not', loc, '%r instead of %r' % (v, o))
    else: c.unknown(rule, what, loc)
