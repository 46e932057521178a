"""Two operations in a row on states of known shape, the second of which could be answered from what the first left behind. Library containers
are replaced by models that look elements up with the program's own comparison (tool/shadow), the state starts as it is before anything ran,
and the second answer must be what the specification gives for the second operation alone, in every partition of the branch conditions. Where
a condition is not decided by the guards a differing assignment of the symbols is looked for."""
from rules.common import *
from rules.shapes import *
import itertools

RULES = {'points': 12, 'other-trace': 8, 'copy': 8, 'load': 2, 'predicate': 8, 'owned': 2}
CFG = 'cache'

def start(P, e, s):
    """the state before anything ran: variables of static storage duration as initialised, containers empty"""
    for n, g in P.globals.items():
        if g.get('const') or g.get('decl'): continue
        G = mk('glob', n)
        if n.startswith('_ZGV'): e.store(s, G, 1, C(0, 8)); continue
        if 'int' in g: e.store(s, G, g['size'], C(g['int'], 8 * g['size']))
        elif g.get('file') and not g['file'].startswith('/usr'):
            s.ver[G] = lib.vec(e, [], 8)
def model(e, s, i, name, args, rt):
    if name == '__cxa_guard_acquire': return [('ret', s, C(1, 32))]
    if name == '__cxa_guard_release': e.store(s, args[0], 1, C(1, 8)); return [('ret', s, None)]
    if name in ('__model_hash', '__cxa_guard_abort'): return [('ret', s, None)]
    g = lib.sig(e.prog, name)
    if g.cls == 'std' and g.name in ('operator<', 'operator==', 'operator!=') and len(args) == 2 and 'pair<' in g.params[0][:24]:
        x, y = lib.value(e, s, args[0], g.params[0]), lib.value(e, s, args[1], g.params[1])
        if x.op == y.op == 'obj' and len(x.a) == len(y.a) == 3 and x.a[0] == y.a[0] == 'pair' and all(t.w for t in x.a[1:] + y.a[1:]): return compare(e, s, g.name, x.a[1:], y.a[1:], e.width(i.get('t')))
    if g.cls == 'std' and g.name in ('operator==', 'operator!=') and len(args) == 2 and 'vector<' in g.params[0][:24]:
        x, y = lib.elems(lib.cval(e, s, args[0])), lib.elems(lib.cval(e, s, args[1]))
        if x is not None and y is not None: return elementwise(e, s, g.name, x, y, e.width(i.get('t')))
    return nolock(e, s, i, name, args, rt)
def eqterm(x, y):
    if x is y: return TRUE
    if x.w: return icmp('eq', x, y)
    return mk('fweq' if x.op == 'var' else 'veq', *((x, y) if x.id < y.id else (y, x)), w=1)
def elementwise(e, s, op, xs, ys, w):
    out = []
    def ret(s, v): out.append(('ret', s, C(v if op == 'operator==' else 1 - v, w)))
    if len(xs) != len(ys): ret(s, 0); return out
    for x, y in zip(xs, ys):
        t = e.known(s, eqterm(x, y))
        if isc(t):
            if not cv(t): ret(s, 0); return out
            continue
        z = s.copy()
        if e.assume(z, t, 0): ret(z, 0)
        s = s.copy()
        if not e.assume(s, t, 1): return out
    ret(s, 1)
    return out
def compare(e, s, op, xs, ys, w):
    """lexicographic comparison, one state per outcome"""
    out = []
    def ret(s, v): out.append(('ret', s, C(v, w)))
    def split(s, t):
        for v in (1, 0):
            z = s.copy()
            if e.assume(z, t, v): yield v, z
    def go(s, k):
        if k == len(xs): ret(s, int(op == 'operator==')); return
        for v, z in split(s, icmp('eq', xs[k], ys[k])):
            if v: go(z, k + 1)
            elif op != 'operator<': ret(z, int(op == 'operator!='))
            else:
                lt, gt = icmp('ult', xs[k], ys[k]), icmp('ult', ys[k], xs[k])
                for u, y in split(z, lt):
                    g = e.known(y, gt)
                    if not (isc(g) and cv(g) == u): ret(y, u)
    go(s, 0)
    return out
class Tr(Shape):
    """a trace nothing was asked of yet; k0: number of the first point"""
    def __init__(self, P, base, points, k0=0):
        Shape.__init__(self, P, base, points, cache=False)
        n = len(points)
        self.cnt = [mk('counter', k0 + k) for k in range(n)]; self.st = [mk('stmt', k0 + k) for k in range(n)]; self.data = [mk('pdata', k0 + k) for k in range(n)]
        self.vars = [[mk('var', k0 + k, j) for j in range(m)] for k, m in enumerate(points)]
    def init(self, e, s):
        Shape.init(self, e, s)
        P = self.P
        for m in lib.fields(P, P.records['Trace']):
            if m['off'] == self.pf.off: continue
            for o in containers(P, m): s.ver[ptr(self.base, o)] = lib.vec(e, [], 8)
def containers(P, m, off=0):
    """offsets of the vectors inside a member that is a container"""
    n = lib.ditname(m['t'])
    if n.startswith('vector<') or n.startswith('std::vector<'): yield m['off'] + off; return
    if re.match(r'(std::)?(unordered_)?(map|set)<', n): yield m['off'] + off
def run(c, P, fn, init, **kw):
    kw.setdefault('nothrow', True)
    def ini(e, s): start(P, e, s); init(e, s)
    return c.run(fn, cfg=CFG, init=ini, model=kw.pop('model', model), exact=True, unroll=1 << 16, keyfn=facts, maxvisits=kw.pop('maxvisits', MAXV), **kw)
def check(c):
    for f, rule in [(points, 'points'), (other, 'other-trace'), (copy, 'copy'), (load, 'load'), (predicates, 'predicate')]:
        try: f(c)
        except AnalysisError as ex: c.unknown(rule, 'not analysed: %s' % ex)
def site(r, P):
    for ev in r.events:
        if 'Trace.hpp' in ev.loc or 'TracePoint.hpp' in ev.loc: return ev.loc
    return 'cffi-interface/trace-db/Trace.hpp'
def listed(c, rule, what, r, P, out, tr, mask, stmt, dom=None):
    """the list at `out` is the points of tr that mask and stmt select"""
    rets = r.returns()
    if not rets: c.unknown(rule, what + ': no result'); return
    for x in r.exits:
        if x.kind == 'oob': c.bad(rule, what + ': an element that is not there is used', x.loc)
    n = len(tr.cnt)
    conds = [icmp('eq', binop('and', 64, tr.st[k], mask), stmt) for k in range(n)]
    at = {mask: [0, 1, 0xf0, M64], stmt: [0, 1, 0x10, 1 << 40]}
    for x in rets:
        v = lib.cval(r.e, x.state, out); got = lib.elems(v)
        if got is None: c.unknown(rule, what + ': %r' % (v,), site(r, P)); continue
        cs = [lib.part(P, g, tr.K.off, 8) for g in got]
        ids = [tr.cnt.index(k) if k in tr.cnt else k for k in cs]
        D = dict(at)
        for t, val in x.state.facts.items():
            for y in subterms(t):
                if y.op == 'stmt': D[y] = [0, 1, 0x11, 1 << 40]
                elif y.op == 'arg' and y not in D: D[y] = [0, 1, 0xf0, M64] if (y.a[0] - mask.a[0]) % 2 == 0 else [0, 1, 0x10, 1 << 40]
        for t in tr.st: D[t] = [0, 1, 0x11, 1 << 40]
        vals = [decided(r, x, t) for t in conds]
        if all(isc(v) for v in vals) and all(isinstance(k, int) for k in ids):
            c.check(ids == [k for k in range(n) if cv(vals[k])], rule, what, site(r, P), repr((ids, vals))); continue
        spec = lambda m: [k for k in range(n) if teval(conds[k], m)]
        a = refute(r, x, D, lambda m: spec(m) != ids, tries=20000)
        if a:
            c.bad(rule, what + ': points %s are given instead of %s (mask %#x, statement %#x%s)' % (['?' if not isinstance(k, int) else k for k in ids], spec(a), a[mask], a[stmt], ''.join(', %s %#x' % (PN.get(t, 'statement of point %d' % t.a[0] if t.op == 'stmt' else repr(t)), a[t]) for t in D if t not in (mask, stmt))), site(r, P))
        elif a is None and implied(r, x, D, conds, ids): c.ok(rule, 1, what)
        else: c.unknown(rule, what + ': the conditions were not understood', site(r, P))
M64 = (1 << 64) - 1
PN = {}
def unify(s, t):
    """t with the equalities that follow from the guards: neither a < b nor b < a"""
    for _ in range(4):
        done = True
        for a, b in equal_pairs(s):
            u = subst(t, {b: a})
            if u is not t: t = u; done = False
        if done: return t
    return t
def decided(r, x, t):
    v = r.e.known(x.state, t)
    if isc(v): return v
    u = unify(x.state, t)
    for f, y in x.state.facts.items():
        if unify(x.state, f) is u: return y
    return r.e.known(x.state, u)
def equal_pairs(s):
    lt = {}
    for t, v in s.facts.items():
        if t.op == 'icmp' and isc(v):
            if t.a[0] == 'eq' and cv(v) and not isc(t.a[1]) and t.a[2].op == 'arg' and t.a[1].op == 'arg': yield sorted((t.a[1], t.a[2]), key=lambda y: y.id)
            if t.a[0] == 'ult' and not cv(v): lt[t.a[1], t.a[2]] = 1
            if t.a[0] == 'ule' and cv(v): lt[t.a[2], t.a[1]] = 1
    for a, b in lt:
        if (b, a) in lt and a.id < b.id and a.op == b.op == 'arg': yield a, b
def subst(t, m):
    if t in m: return m[t]
    if not any(isinstance(x, Term) for x in t.a): return t
    a = [subst(x, m) if isinstance(x, Term) else x for x in t.a]
    if all(x is y for x, y in zip(a, t.a)): return t
    if t.op == 'icmp': return icmp(*a)
    if t.op in ('and', 'or', 'xor', 'add', 'sub', 'mul'): return binop(t.op, t.w, *a)
    return mk(t.op, *a, w=t.w)
def implied(r, x, D, conds, ids):
    """every condition follows from the guards"""
    for k, t in enumerate(conds):
        v = decided(r, x, t)
        if not isc(v) or bool(cv(v)) != (k in ids): return False
    return True
def points(c):
    P = c.prog(CFG)
    for n in (0, 1, 3):
        tr = Tr(P, A[2], [1] * n)
        r = run(c, P, 's_points', tr.init)
        listed(c, 'points', 'the first of two questions about %d points' % n, r, P, A[0], tr, A[3], A[4])
        listed(c, 'points', 'the second of two questions about %d points' % n, r, P, A[1], tr, A[5], A[6])
    tr = Tr(P, A[2], [1, 1])
    r = run(c, P, 's_points_again', tr.init)
    listed(c, 'points', 'the first question again', r, P, A[0], tr, A[3], A[4])
def other(c):
    P = c.prog(CFG)
    t, u = Tr(P, A[2], [1, 1]), Tr(P, A[3], [1, 1], 10)
    def ini(e, s): t.init(e, s); u.init(e, s)
    r = run(c, P, 's_points_two', ini)
    listed(c, 'other-trace', 'the same question about another trace', r, P, A[1], u, A[4], A[5])
def copy(c):
    P = c.prog(CFG)
    tr = Tr(P, A[3], [1, 1])
    r = run(c, P, 's_points_copy', tr.init)
    listed(c, 'copy', 'a question about a copy of the trace', r, P, A[1], tr, A[6], A[7])
def load(c):
    P = c.prog(CFG)
    tr = Tr(P, A[2], [1, 1])
    from rules.c06 import archived
    def loading(n):
        new = Tr(P, A[2], [1] * n, 20)
        def mod(e, s, i, name, args, rt):
            g = archived(P, name)
            if g:
                t = lib.base_type(g.params[0]); sz = lib.scalar_size(P, t); k = s.ts[1]
                if sz:
                    e.store(s, args[1], sz, C(n if k == 0 else 0, 8 * sz)); s.ts = ('load', k + 1)
                elif t == 'TracePoint':
                    j = k - 1 - NC
                    if not 0 <= j < n: raise AnalysisError('unexpected items are loaded')
                    put(e, s, args[1], new, j)
                    s.ts = ('load', k + 1)
                else: raise AnalysisError('unexpected items are loaded')
                return [('ret', s, args[0])]
            return model(e, s, i, name, args, rt)
        NC = 2
        r = run(c, P, 's_points_load', tr.init, model=mod, ts0=('load', 0))
        listed(c, 'load', 'a question after a trace of %d points was loaded over it' % n, r, P, A[1], new, A[4], A[5])
    def put(e, s, p, new, j):
        e.store(s, ptr(p, new.K.off), 8, new.cnt[j]); e.store(s, ptr(p, new.S.off), 8, new.st[j]); lib.setc(e, s, ptr(p, new.DF.off), new.data[j])
    loading(0); loading(2)
class Asked:
    """two predicates asked of two points; nv: variables of the points, b1 and b2: bindings, ch: children of the predicates"""
    def __init__(self, P, fn, nv, b1, b2, ch):
        self.P = P; self.fn = fn; self.odd = []
        self.F = {f.name: f for f in fields(P, 'Predicate')}; self.E = {g: field(P, 'EvaluatePredicate', g) for g in ('getPredicate', 'getVariables')}
        self.D = {f.name: f for f in fields(P, 'TracePointData')}; self.DF = field(P, 'TracePoint', 'getData')
        self.vars = [[mk('var', k, j) for j in range(nv)] for k in (0, 1)]; self.b = [b1, b2]
        self.kind = [mk('pk', k, w=32) for k in (0, 1)]; self.dat = [mk('pd', k, w=64) for k in (0, 1)]
        self.ch = ch
    def child(self, e, k, j): return make(self.P, 'Predicate', {self.F['kind'].off: mk('pk', k, j, w=32), self.F['data'].off: mk('pd', k, j, w=64), self.F['children'].off: lib.vec(e, [], self.P.records['Predicate']['s'])}, (k, j))
    def children(self, e, k): return lib.vec(e, [self.child(e, k, j) for j in range(self.ch)], self.P.records['Predicate']['s'])
    def init(self, e, s):
        point = self.fn.endswith('_point')
        for k in (0, 1):
            d = A[2 + k]
            if point:
                fw = mk('pdata', k); s.ver[ptr(d, self.DF.off)] = fw; d = mk('fwget', fw)
            s.ver[ptr(d, self.D['vars'].off)] = lib.vec(e, self.vars[k], 8)
            e.store(s, ptr(A[4 + k], self.F['kind'].off), 4, self.kind[k]); e.store(s, ptr(A[4 + k], self.F['data'].off), 8, self.dat[k])
            s.ver[ptr(A[4 + k], self.F['children'].off)] = self.children(e, k)
            s.ver[A[6 + k]] = lib.vec(e, [C(j, 32) for j in self.b[k]], 4)
    def want(self, e, k): return mk('sat', self.kind[k], self.dat[k], self.children(e, k), *[self.vars[k][j] for j in self.b[k]], w=1)
    def model(self, e, s, i, name, args, rt):
        if name == '__model_gone':
            b = args[0]
            for p in list(s.ver):
                if root(p) is root(b): s.ver[p] = mk('gone', p)
            s.mem[root(b)] = {engine.TOPREG: mk('memgone', b, w=64)}
            return [('ret', s, None)]
        q = self.P.qual.get(name, name)
        if q.startswith('EvaluatePredicate::operator()|'):
            def at(f):
                p = ptr(args[0], f.off)
                return e.load(s, p, 8, 64) if f.kind == 'scalar' else p
            pp, vp = at(self.E['getPredicate']), at(self.E['getVariables'])
            vs = lib.elems(lib.cval(e, s, vp))
            if vs is None: self.odd.append('%s: variables' % locstr(i)); return None
            t = mk('sat', e.load(s, ptr(pp, self.F['kind'].off), 4, 32), e.load(s, ptr(pp, self.F['data'].off), 8, 64), lib.cval(e, s, ptr(pp, self.F['children'].off)), *vs, w=1)
            w = e.width(i.get('t')); out = []
            for v in (1, 0):
                z = s.copy()
                if e.assume(z, t, v): out.append(('ret', z, C(v, w)))
            return out
        return model(e, s, i, name, args, rt)
def same(e, s, x, y):
    """1 if the guards say that x and y are equal"""
    if lib.elems(x) is not None and lib.elems(y) is not None:
        xs, ys = lib.elems(x), lib.elems(y)
        if len(xs) != len(ys): return FALSE
        return TRUE if all((lambda z: isc(z) and cv(z))(same(e, s, p, q)) for p, q in zip(xs, ys)) else FALSE
    return e.known(s, eqterm(x, y))
def predicates(c):
    P = c.prog(CFG)
    for fn, what in [('s_satisfies', 'a second question about a point'), ('s_satisfies_point', 'a second question about a point'), ('s_satisfies_again', 'the first question again'), ('s_satisfies_gone', 'a question after the first one is gone')]:
        for nv, b1, b2, ch in [(1, [0], [0], 0), (1, [0], [0], 1), (2, [0, 1], [1, 0], 0), (2, [0], [0, 1], 0), (2, [1], [0], 0), (1, [], [], 1)]:
            asked(c, P, fn, Asked(P, fn, nv, b1, b2, ch), 'owned' if fn.endswith('gone') else 'predicate', '%s (%d and %d variables, %d children)' % (what, len(b1), len(b2), ch))
def asked(c, P, fn, q, rule, what):
    r = run(c, P, fn, q.init, model=q.model)
    if q.odd: c.unknown(rule, what + ': ' + q.odd[0]); return
    for x in r.exits:
        if x.kind == 'oob': c.bad(rule, what + ': an element that is not there is used', x.loc)
    rets = r.returns()
    if not rets: c.unknown(rule, what + ': no answer'); return
    loc = site(r, P)
    for x in rets:
        for k in (0, 1):
            v = r.e.known(x.state, r.e.load(x.state, A[k], 1, 8)); w = q.want(r.e, k); t = r.e.known(x.state, w)
            v = r.e.known(x.state, v)
            if not isc(v): c.unknown(rule, what + ': answer %r' % (v,), loc); continue
            if isc(t): c.check(cv(v) & 1 == cv(t), rule, what, loc, 'answer %d' % cv(v)); continue
            # not evaluated: an answer that was remembered
            o = q.want(r.e, 1 - k)
            if k == 0 or not isc(r.e.known(x.state, o)): c.bad(rule, what + ': answered without evaluating the predicate', loc); continue
            if len(o.a) != len(w.a): c.bad(rule, what + ': the answer for another number of variables is given', loc); continue
            names = ['kind', 'value', 'operands'] + ['variable %d' % (j + 1) for j in range(len(w.a) - 3)]
            wrong = None
            for n, a, b in zip(names, o.a, w.a):
                z = same(r.e, x.state, a, b)
                if not (isc(z) and cv(z)): wrong = n; break
            if wrong is None: c.ok(rule, 1, what)
            elif any(f.op not in ('sat', 'icmp', 'veq', 'fweq', 'not') for f in x.state.facts) : c.unknown(rule, what + ': a condition was not understood', loc)
            else: c.bad(rule, what + ': the answer remembered for another %s is given' % wrong, loc)
