"""Abstract interpretation of the memory map, of reading points and of reading a trace over histories of known length: so many allocation
records and pointer variables, addresses, sizes and pointer values symbolic, every random level of the skip list considered. The result is a
decision tree over comparisons of the symbols; it is evaluated for representatives of every order of the symbols and must give the room left in
the closest allocation at or below the pointer, as the specification computes it."""
from rules.common import *
from rules.shapes import *
import itertools
RULES = {'map': 500, 'clear': 20, 'variable': 4, 'points': 50, 'trace': 20}
CFG = 'cache'
NONE = (1 << 64) - 1
def check(c):
    for f, rule in [(formats, 'variable'), (clears, 'clear'), (points, 'points'), (traces, 'trace'), (maps, 'map')]:
        if c.viol and rule == 'map': break
        try: f(c)
        except AnalysisError as ex: c.unknown(rule, 'not analysed: %s' % ex)
def everything(e, b, s):
    """partition key: no two different states of a loop are merged"""
    k = facts(e, b, s)
    if b not in e.fn.cyc: return k
    li = e.fn.livein[b] | {i['i'] for i in e.fn.blocks[b] if i['o'] == 'phi'}
    return k + tuple(sorted((i, v.id) for i, v in s.env.items() if i in li))
class Rand:
    """rand() gives 0 or RAND_MAX; at most `run` zeros in a row"""
    def __init__(self, run): self.run = run
    def model(self, e, s, i, name, args, rt):
        if name in ('rand', 'random', 'lrand48') or name == 'rand_r':
            n, z = s.ts[-2:]
            w = e.width(i.get('t')); out = []
            for v in ((0, 1) if z < self.run else (1,)):
                y = s.copy(); y.ts = s.ts[:-2] + (n + 1, z + 1 if v == 0 else 0)
                if e.assume(y, mk('randbit', n, w=1), v): out.append(('ret', y, C((1 << 31) - 1 if v else 0, w)))
            return out
        return nolock(e, s, i, name, args, rt)
def spec(ops, p, clear=()):
    """room left at p after the (address, size) records, NONE if none"""
    live = {}
    for k, (a, s) in enumerate(ops):
        if k in clear: live = {}
        if s: live[a] = s
        else: live.pop(a, None)
    best = [a for a in live if a <= p]
    if not best: return NONE
    a = max(best)
    return a + live[a] - p if p <= a + live[a] else NONE
class Tree:
    """decision tree of the guards of the exits"""
    def __init__(self, exits):
        self.t = {}; self.odd = False
        for x in exits:
            n = self.t
            for t, v in x.state.facts.items():
                if not isc(v) or t.w != 1: continue
                if not n: n['t'] = t
                if 'x' in n or n['t'] is not t: self.odd = True; return
                n = n.setdefault(cv(v), {})
            if 't' in n or 'x' in n: self.odd = True; return
            n['x'] = x
    def find(self, asg, n=None):
        """the exits reached for the assignment"""
        n = self.t if n is None else n
        while 'x' not in n:
            if not n: return
            t = n['t']
            if t.op == 'randbit':
                for v in (0, 1):
                    if v in n: yield from self.find(asg, n[v])
                return
            v = teval(t, asg)
            if v not in n: return
            n = n[v]
        yield n['x']
def site(r, P):
    for ev in r.events:
        if 'MemoryMap.hpp' in ev.loc: return ev.loc
    return 'cffi-interface/trace-db/MemoryMap.hpp'
ADR = [0x100, 0x200, 0x300, 0x400]
SIZ = [0, 0x40, 0x180]
PTR = [0, 0xff, 0x100, 0x120, 0x140, 0x141, 0x200, 0x240, 0x241, 0x280, 0x281, 0x300, 0x340, 0x341, 0x380, 0x381, 0x400, 0x440, 0x480, 0x481, 0x580]
def decide(c, rule, what, r, P, asgs, result, want, loc):
    """for every assignment, the exits reached for it give what is wanted"""
    for x in r.exits:
        if x.kind == 'wild': c.bad(rule, what + ': an entry that was never set is followed', x.loc); return
        if x.kind == 'oob': c.bad(rule, what + ': an element that is not there is used', x.loc); return
    rets = r.returns()
    if len(rets) != len(r.exits): c.unknown(rule, what + ': %s' % sorted({x.kind for x in r.exits})); return
    T = Tree(rets)
    if T.odd: c.unknown(rule, what + ': the guards do not form a decision tree', loc); return
    n = 0
    for asg in asgs:
        w = want(asg); got = 0
        try:
            for x in T.find(asg):
                got += 1; v = result(r, x, asg)
                if v != w: c.bad(rule, what + ': ' + show(v, w) + ' after ' + story(asg), loc); return
        except Undef as u: c.unknown(rule, what + ': %s' % str(u)[:120], loc); return
        if not got: c.unknown(rule, what + ': no outcome for ' + story(asg), loc); return
        n += 1
    c.ok(rule, n, what + ', %d outcomes, %d cases' % (len(rets), n))
def show(v, w):
    f = lambda z: '%s' % (['none' if y == NONE else hex(y) for y in z],) if isinstance(z, tuple) else 'none' if z == NONE else hex(z) if isinstance(z, int) else repr(z)
    return 'the room reported is %s instead of %s' % (f(v), f(w))
def story(asg):
    k = 0; out = []
    for t, v in sorted(asg.items(), key=lambda i: i[0].id):
        out.append('%s=%#x' % (t.a[1] if t.op == 'rd' else {'adr': 'address', 'size': 'size', 'pval': 'pointer'}.get(t.op, t.op) + ('%d' % (t.a[0] + 1) if t.a else ''), v))
    return ', '.join(sorted(out))
def maps(c):
    P = c.prog(CFG)
    Z, N = [0], [0x40, 0x180]
    history(c, P, 'map', 's_map_two', 2, 2, [SIZ, SIZ])
    history(c, P, 'map', 's_map_three', 3, 2, [N, N, N])
    history(c, P, 'map', 's_map_three', 3, 2, [N, N, Z])
    history(c, P, 'map', 's_map_three', 3, 2, [N, Z, N])
    if c.tier == 'quick': return
    history(c, P, 'map', 's_map_three', 3, 3, [SIZ, SIZ, SIZ])
    history(c, P, 'map', 's_map_four', 4, 1, [N, N, N, Z])
    history(c, P, 'map', 's_map_four', 4, 1, [N, N, Z, N])
def clears(c): history(c, c.prog(CFG), 'clear', 's_map_clear', 2, 2, [[0x40, 0x180], SIZ], clear=(1,))
def history(c, P, rule, fn, n, run, sizes, clear=()):
    Af, Sf = field(P, 'TraceBufferSize', 'getAddress'), field(P, 'TraceBufferSize', 'getSize')
    adr = [mk('adr', k, w=64) for k in range(n)]; sz = [mk('size', k, w=64) for k in range(n)]
    p = mk('pval', w=64)
    def init(e, s):
        for k in range(n):
            e.store(s, ptr(A[1 + k], Af.off), 8, adr[k]); e.store(s, ptr(A[1 + k], Sf.off), 8, sz[k] if len(sizes[k]) > 1 else C(sizes[k][0]))
            if len(sizes[k]) > 1 and 0 not in sizes[k]: e.assume(s, icmp('eq', sz[k], C(0)), 0)
        for t in adr + [p]: e.assume(s, icmp('ult', t, C(1 << 48)), 1)
    r = c.run(fn, cfg=CFG, args={1 + n: p}, init=init, model=Rand(run).model, exact=True, unroll=1 << 16, keyfn=everything, maxvisits=MAXV * 20, nothrow=True, ts0=('m', 0, 0), order=True)
    what = 'room left after %d records%s' % (n, '' if not any(len(z) == 1 for z in sizes) else ', %s' % ' and '.join('record %d is a release' % (k + 1) for k in range(n) if len(sizes[k]) == 1))
    def asgs():
        for a in itertools.product(ADR[:n], repeat=n):
            for z in itertools.product(*sizes):
                for q in PTR:
                    if q > ADR[n - 1] + 0x181: continue
                    m = dict(zip(adr, a)); m.update(zip(sz, z)); m[p] = q
                    yield m
    ld = {}
    def result(r, x, asg):
        if x not in ld: ld[x] = r.e.load(x.state, A[0], 8, 64)
        return teval(ld[x], asg)
    decide(c, rule, what, r, P, asgs(), result, lambda m: spec([(m[adr[k]], m[sz[k]]) for k in range(n)], m[p], clear), site(r, P))

def pointer_type(P, e, fmt='POINTER', size=8):
    return make(P, 'TypeDescription', {field(P, 'TypeDescription', 'getTypeFormat').off: C(P.enum('type_format')[fmt], 32), field(P, 'TypeDescription', 'getSize').off: C(size, 32), field(P, 'TypeDescription', 'getNameIndex').off: C(0, 32)}, 'type')
class Hist:
    """a stream of points; story: e.g. 'A0 P0 | A1 P1' (allocation record 0, pointer variable 0, end of the point, ...)"""
    def __init__(self, c, story, fmt='POINTER', size=8, pre=()):
        from rules.script import Script
        self.c = c; self.P = P = c.prog(CFG); T = P.enum('trace_entry_tag')
        self.items = list(pre); self.story = story; self.sym = {}; self.pts = [[]]
        self.fmt, self.size = fmt, size
        for w in story.split():
            if w == '|': self.items.append((1, T['END_ENTRY'])); self.pts.append([]); continue
            k = int(w[1:])
            if w[0] == 'A':
                self.items += [(1, T['BUFFER_SIZE']), (8, 'adr%d' % k), (8, 'size%d' % k)]
                self.sym['adr', k] = mk('rd', len(self.items) - 2, 'adr%d' % k, w=64); self.sym['size', k] = mk('rd', len(self.items) - 1, 'size%d' % k, w=64)
            elif w[0] == 'S': self.items += [(1, T['STATEMENT_ID']), (8, 'stmt%d' % k)]
            else:
                self.items += [(1, T['VARIABLE']), (4, 0), (4, 0), (size, 'ptr%d' % k)]
                self.sym['ptr', k] = mk('rd', len(self.items) - 1, 'ptr%d' % k, w=8 * size); self.pts[-1].append(k)
        self.pts.pop()
        self.sc = Script(self.items, more=Rand(1).model)
    def assume(self, e, s):
        for (n, k), t in self.sym.items():
            if n != 'size' and t.w == 64: e.assume(s, icmp('ult', t, C(1 << 48)), 1)
    def run(self, fn, init, **kw):
        def ini(e, s): self.assume(e, s); init(e, s)
        return self.c.run(fn, cfg=CFG, init=ini, model=self.sc.model, exact=True, unroll=1 << 16, keyfn=everything, maxvisits=MAXV * 10, nothrow=True, ts0=('G', 0, 0, 0), order=True, **kw)
    def asgs(self):
        n = len([1 for x, k in self.sym if x == 'adr'])
        for a in itertools.product(ADR[:n], repeat=n):
            for z in itertools.product(SIZ, repeat=n):
                for q in PTR:
                    if q > ADR[max(n, 1) - 1] + 0x181: continue
                    m = {}
                    for (x, k), t in self.sym.items(): m[t] = a[k] if x == 'adr' else z[k] if x == 'size' else q
                    yield m
    def want(self, m):
        out = []; ops = []
        for w in self.story.split():
            if w[0] == 'A': ops.append((m[self.sym['adr', int(w[1:])]], m[self.sym['size', int(w[1:])]]))
            elif w[0] == 'P': out.append(spec(ops, m[self.sym['ptr', int(w[1:])]]) if self.fmt == 'POINTER' else NONE)
        return tuple(out)
    def rooms(self, r, x, data, asg):
        """what the variables of the point data report"""
        P = self.P
        HB, BS = field(P, 'TraceVarInfo', 'hasBufferSize'), field(P, 'TraceVarInfo', 'getBufferSize')
        out = []
        for d in data:
            if d is None or d.op != 'fwmk': raise Undef('the data of a point: %r' % (d,))
            vs = [lib.elems(y) for y in d.a[1:]]
            vs = [v for v in vs if v is not None and all(y.op == 'fwmk' and y.a[0] == 'TraceVarInfo' for y in v)]
            vs = max(vs, key=len) if vs else None
            if vs is None: raise Undef('the variables of a point')
            for y in vs:
                o = y.a[1]; h = lib.part(P, o, HB.off, HB.sz); b = lib.part(P, o, BS.off, 8)
                if h is None or b is None: raise Undef('a variable: %r' % (o,))
                out.append(teval(b, asg) if teval(h, asg) & 0xff else NONE)
        return tuple(out)
def types(P, e, h): return lib.vec(e, [pointer_type(P, e, h.fmt, h.size)], P.records['TypeDescription']['s'])
def names(e): return lib.vec(e, [mk('name', 0)], 32)
def points(c):
    P = c.prog(CFG)
    DF = field(P, 'TracePoint', 'getData')
    for story in ('A0 P0 | |', 'P0 A0 | |', 'A0 | P0 |', 'A0 A1 P0 | |', 'A0 | S0 A1 P0 |', 'A0 | P0 A1 |', 'P0 A0 P1 | |', 'P0 | A0 P1 |'):
        h = Hist(c, story)
        def init(e, s): s.ver[A[3]] = names(e); s.ver[A[4]] = types(P, e, h)
        r = h.run('s_map_points', init)
        what = 'room left in points that read %s' % tell(story)
        if h.sc.odd: c.unknown('points', what + ': input used as something else at %s' % h.sc.odd[0]); continue
        ld = {}
        def result(r, x, asg):
            if x not in ld: ld[x] = [lib.content(r.e, x.state, ptr(a, DF.off)) for a in (A[0], A[1])]
            return h.rooms(r, x, ld[x], asg)
        decide(c, 'points', what, r, P, h.asgs(), result, h.want, site(r, P))
def tell(story): return story.replace('|', '/').replace('A', 'record ').replace('P', 'pointer ').replace('S0', 'statement').strip(' /')
def formats(c):
    P = c.prog(CFG)
    DF = field(P, 'TracePoint', 'getData')
    for fmt, size in (('UNSIGNED', 8), ('SIGNED', 8), ('FLOAT', 8), ('POINTER', 4), ('UNSIGNED', 4), ('POINTER', 8), ('BLOB', 8)):
        h = Hist(c, 'A0 P0 | |', fmt, size)
        def init(e, s): s.ver[A[3]] = names(e); s.ver[A[4]] = types(P, e, h)
        r = h.run('s_map_points', init)
        what = 'room reported for a variable of format %s and %d bytes' % (fmt, size)
        ld = {}
        def result(r, x, asg):
            if x not in ld: ld[x] = [lib.content(r.e, x.state, ptr(a, DF.off)) for a in (A[0], A[1])]
            return h.rooms(r, x, ld[x], asg)
        loc = site(r, P)
        for ev in r.events:
            if 'TraceVarInfo.hpp' in ev.loc: loc = ev.loc
        if fmt == 'BLOB':
            for x in r.returns():
                try: v = result(r, x, {})
                except Undef: c.unknown('variable', what, loc); continue
                c.check(v == (NONE,), 'variable', what, loc)
            continue
        decide(c, 'variable', what, r, P, h.asgs(), result, h.want, loc)
def traces(c):
    P = c.prog(CFG)
    F = P.enum('type_format')
    pf, DF = field(P, 'Trace', 'getPoints'), field(P, 'TracePoint', 'getData')
    for story in ('A0 P0 |', 'A0 | P0 |', 'A0 | | S0 P0 |', 'A0 | A1 P0 |'):
        h = Hist(c, story, pre=[(8, 2), (2, 0x0078), (4, 1), (4, 0), (4, F['POINTER']), (4, 8)])
        r = h.run('e_Trace_read', lambda e, s: None, args={2: C(story.count('|'))})
        what = 'room left in a trace that reads %s' % tell(story)
        if h.sc.odd: c.unknown('trace', what + ': input used as something else at %s' % h.sc.odd[0]); continue
        ld = {}
        def result(r, x, asg):
            if x not in ld:
                ps = lib.elems(lib.cval(r.e, x.state, ptr(A[0], pf.off)))
                ld[x] = None if ps is None else [lib.part(P, t, DF.off) for t in ps]
            if ld[x] is None: raise Undef('the points of the trace')
            return h.rooms(r, x, ld[x], asg)
        decide(c, 'trace', what, r, P, h.asgs(), result, h.want, site(r, P))
