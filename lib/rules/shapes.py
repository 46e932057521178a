"""Traces of a known shape: so many points with so many variables, everything else symbolic."""
from rules.common import *

def make(P, rec, parts, tag):
    """an object of the class with the given parts ({offset: value}); the others are unknown"""
    return mk('obj', rec, *[parts[m['off']] if m['off'] in parts else mk('pad', tag, m['off'], w=8 * min(8, m['s'])) for m in lib.fields(P, P.records[rec])])
class Shape:
    """points: list of numbers of variables. Fills in the trace at `base`."""
    def __init__(self, P, base, points, cache=True):
        self.P = P; self.base = base; self.pts = points
        self.pf = field(P, 'Trace', 'getPoints'); self.D = {f.name: f for f in fields(P, 'TracePointData')}
        self.K = field(P, 'TracePoint', 'getCounter'); self.S = field(P, 'TracePoint', 'getStatement'); self.DF = field(P, 'TracePoint', 'getData')
        self.T = field(P, 'TraceVarInfo', 'getTypeIndex')
        self.cnt = [mk('counter', k) for k in range(len(points))]; self.st = [mk('stmt', k) for k in range(len(points))]
        self.data = [mk('pdata', k) for k in range(len(points))]
        self.vars = [[mk('var', k, j) for j in range(n)] for k, n in enumerate(points)]
        self.cache = cache
    def ty(self, k, j): b, o = split(ptr(mk('fwget', self.vars[k][j]), self.T.off)); return mk('mem0', b, o, self.T.sz, 0, w=8 * self.T.sz)
    def content(self, k, name): return mk('cont0', ptr(mk('fwget', self.data[k]), self.D[name].off), 0)
    def init(self, e, s):
        P = self.P
        r = P.records['TracePoint']
        es = []
        for k in range(len(self.pts)):
            es.append(make(P, 'TracePoint', {self.K.off: self.cnt[k], self.S.off: self.st[k], self.DF.off: self.data[k]}, k))
        s.ver[ptr(self.base, self.pf.off)] = lib.vec(e, es, r['s'])
        fw = 8
        for k in range(len(self.pts)): s.ver[ptr(mk('fwget', self.data[k]), self.D['vars'].off)] = lib.vec(e, self.vars[k], fw)
        if self.cache:
            for m in lib.fields(P, P.records['Trace']):
                if 'map<' in lib.ditname(m['t']) and 'MemoryMap' not in lib.ditname(m['t']): s.ver[ptr(self.base, m['off'])] = mk('mapempty')
def facts(e, b, s):
    """partition key: the branch conditions so far and, in loops, what is stored"""
    k = tuple(sorted((t.id, v.id) for t, v in s.facts.items()))
    if b not in e.fn.cyc: return k
    m = [(a.id, o, c[1].id) for a, cells in s.mem.items() if a.op != 'dirty' for o, c in cells.items() if isinstance(o, int)] + [(p.id, -1, v.id) for p, v in s.ver.items()]
    return k + tuple(sorted(m))
MAXV = 12000
def nolock(e, s, i, name, args, rt):
    if name.startswith('pthread_mutex'): return [('ret', s, C(0, e.width(i.get('t'))))]
def decode(P, e, s, t):
    """(counter, statement, allocation records, [variables], auxiliary data) of a point, or None"""
    K, S, D = field(P, 'TracePoint', 'getCounter'), field(P, 'TracePoint', 'getStatement'), field(P, 'TracePoint', 'getData')
    c, st, d = lib.part(P, t, K.off, 8), lib.part(P, t, S.off, 8), lib.part(P, t, D.off)
    if c is None or st is None or d is None: return None
    r = pdata(P, e, s, d)
    return None if r is None else (c, st) + r
def pdata(P, e, s, d):
    fs = {f.name: f for f in fields(P, 'TracePointData')}
    g = {}
    for n, f in fs.items(): g[n] = lib.content(e, s, ptr(mk('fwget', d), f.off))
    v = lib.elems(g['vars'])
    return None if v is None else (g['buffersizes'], v, g['aux'])

# ---- decision tables: guards are compared with the specification; where they are not decided by it, a differing assignment is looked for
class Undef(Exception): pass
def teval(t, asg):
    o = t.op
    if o == 'c': return cv(t)
    if t in asg: return asg[t]
    m = (1 << t.w) - 1
    if o in ('zext', 'trunc'): return teval(t.a[0], asg) & m
    if o == 'sext': return sgn(teval(t.a[0], asg), t.a[0].w) & m
    if o == 'not': return 1 - teval(t.a[0], asg)
    if o == 'select': return teval(t.a[1] if teval(t.a[0], asg) else t.a[2], asg)
    if o == 'icmp':
        x, y = teval(t.a[1], asg), teval(t.a[2], asg); w = t.a[1].w
        p = t.a[0]
        return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'slt': sgn(x, w) < sgn(y, w), 'sle': sgn(x, w) <= sgn(y, w)}[p])
    if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
        x, y = teval(t.a[0], asg), teval(t.a[1], asg)
        if o in ('udiv', 'urem') and y == 0: raise Undef()
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < t.w else 0, 'lshr': lambda: x >> y,
                'udiv': lambda: x // y, 'urem': lambda: x % y}[o]() & m
    raise Undef(t)
def leaves(t, atoms, out=None):
    """the atoms of t, or None if t depends on something else"""
    if out is None: out = set()
    if t in atoms: out.add(t); return out
    if t.op == 'c': return out
    if t.op in ('zext', 'trunc', 'sext', 'not', 'select', 'icmp', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'udiv', 'urem'):
        for x in t.a:
            if isinstance(x, Term) and leaves(x, atoms, out) is None: return None
        return out
    return None
def refute(r, x, domains, differs, tries=4000, seed=1):
    """an assignment {atom: value} consistent with the guards of exit x for which differs(assignment) holds; None if not found, False if a guard is not understood"""
    import random, itertools
    fs = []
    for t, v in x.state.facts.items():
        if leaves(t, domains) is None: 
            if any(a in domains for a in subterms(t)): return False
            continue
        fs.append((t, v))
    rnd = random.Random(seed)
    at = sorted(domains, key=lambda t: t.id)
    total = 1
    for a in at: total *= len(domains[a])
    gen = itertools.product(*[domains[a] for a in at]) if total <= tries else ([rnd.choice(domains[a]) for a in at] for _ in range(tries))
    for vals in gen:
        asg = dict(zip(at, vals))
        for t, v in x.state.facts.items():
            if t in asg and isc(v): asg[t] = cv(v)
        try:
            if all(teval(t, asg) == cv(v) for t, v in fs if isc(v)) and differs(asg): return asg
        except Undef: continue
    return None
def bool_atoms(t, out):
    """equalities (and other conditions) that the boolean term t is built of"""
    if t.op == 'c': return
    if t.op in ('not', 'zext', 'trunc') or t.op in ('and', 'or', 'xor', 'select') and t.w == 1 or t.op in ('and', 'or', 'xor') and all(x.op in ('zext', 'c', 'and', 'or', 'xor') for x in t.a if isinstance(x, Term)):
        for x in t.a:
            if isinstance(x, Term): bool_atoms(x, out)
        return
    if t.op == 'icmp' and t.a[0] in ('eq', 'ne') and (t.a[1].w == 1 or isc(t.a[2]) and t.a[1].op in ('zext', 'and', 'or', 'xor', 'select')):
        for x in t.a[1:]: bool_atoms(x, out)
        return
    if t.op == 'icmp' and t.a[0] == 'ne': t = icmp('eq', t.a[1], t.a[2])
    out.add(t)
def cases(r, x, conds, differs, limit=1 << 14):
    """case distinction over the conditions that the guards of exit x leave open: an assignment {condition: 0/1} consistent with the guards for
    which differs(valuation) holds, False if there is none, None if it was not decided"""
    import itertools
    fs = [(t, v) for t, v in x.state.facts.items() if isc(v)]
    at = set()
    rel = set()
    for t in conds: rel |= set(y for y in subterms(t) if y.op in ('mem0', 'stmt', 'counter', 'c') and not isc(y))
    gs = []
    for t, v in fs:
        a = set(); bool_atoms(t, a)
        if any(y in rel for z in a for y in subterms(z)): gs.append((t, v)); at |= a
    at |= {t for t in conds if not isc(t)}
    fixed = {}
    for t in list(at):
        k = r.e.known(x.state, t)
        if isc(k): fixed[t] = cv(k); at.discard(t)
    at = sorted(at, key=lambda t: t.id)
    odd = [t for t in at if not (t.op == 'icmp' and t.a[0] == 'eq')]
    if 1 << len(at) > limit: return None
    for vals in itertools.product((0, 1), repeat=len(at)):
        m = dict(fixed); m.update(zip(at, vals))
        try:
            if not all(teval(t, m) & 1 == cv(v) & 1 for t, v in gs): continue
        except Undef: return None
        if not transitive(m): continue
        def val(t):
            if isc(t): return bool(cv(t))
            return bool(m[t])
        if differs(val): return None if odd else m
    return False
def transitive(m):
    par = {}
    def find(a):
        while a in par and par[a] is not a: a = par[a]
        return a
    for t, v in m.items():
        if v and t.op == 'icmp' and t.a[0] == 'eq':
            a, b = find(t.a[1]), find(t.a[2])
            if a is not b:
                if isc(a) and isc(b): return False
                if isc(a): par[b] = a
                else: par[a] = b
    return not any(not v and t.op == 'icmp' and t.a[0] == 'eq' and find(t.a[1]) is find(t.a[2]) for t, v in m.items())
