"""Abstract interpretation of a query over traces, free variables and soft predicates of known shape (how many points, variables, free
variables, allowed types, soft predicates), everything else symbolic, with trace partitioning on the branch conditions. The result is a
decision table (guards, list of results). For each shape every row must be what the specification gives for its guards: the points whose
masked statement id matches, the bindings whose types are allowed, those for which the hard predicate holds, at each point those that
satisfy the most soft predicates, with the counter, statement id, variables, allocation records and auxiliary data of their point, in point
order. Where a guard is not one of the specification's conditions, a differing assignment of the symbols is looked for."""
from rules.common import *
from rules.shapes import *
import itertools

RULES = {'filter': 8, 'type-compatible': 4, 'hard-predicate': 10, 'soft-predicates': 20, 'no-variables': 8, 'seed': 4, 'point-order': 4}

class Q:
    """a query: allowed types per free variable, soft predicates"""
    def __init__(self, c, points, allow, soft, seed=0, hard=True, types=None, fn='e_Trace_query'):
        self.c = c; self.P = c.prog('q'); self.allow = allow; self.soft = soft; self.seed = seed; self.hard = hard; self.types = types; self.fn = fn
        self.sh = Shape(self.P, A[1], points); self.k = field(self.P, 'Predicate', 'getKind')
        self.NULLP = self.P.enum('predicate_kind')['NULL_PREDICATE']
        self.al = [[mk('allow', i, j, w=32) for j in range(n)] for i, n in enumerate(allow)]
        self.hk = mk('pk', 'hard', w=32) if hard else C(self.NULLP, 32)
        self.sk = [mk('pk', 'soft', j, w=32) for j in range(soft)]
        self.odd = []
    def init(self, e, s):
        P = self.P
        self.sh.init(e, s)
        s.ver[A[2]] = lib.vec(e, [make(P, 'FreeVariable', {field(P, 'FreeVariable', 'getAllowedTypes').off: lib.vec(e, a, 4)}, i) for i, a in enumerate(self.al)], P.records['FreeVariable']['s'])
        s.ver[A[4]] = lib.vec(e, [make(P, 'Predicate', {self.k.off: k}, j) for j, k in enumerate(self.sk)], P.records['Predicate']['s'])
        e.store(s, ptr(A[3], self.k.off), 4, self.hk)
    def sat(self, k, vs): return mk('sat', k, *vs, w=1)
    def model(self, e, s, i, name, args, rt):
        P = self.P
        q = P.qual.get(name, name)
        if re.search(r'TracePoint(Data)?::(cachedS|s)atisfiesPredicate\|', q):
            if q.startswith('TracePointData'):
                v = lib.elems(lib.cval(e, s, ptr(args[0], field(P, 'TracePointData', 'getVars').off)))
            else:
                d = lib.content(e, s, ptr(args[0], field(P, 'TracePoint', 'getData').off)); r = pdata(P, e, s, d); v = r and r[1]
            b = lib.elems(lib.cval(e, s, args[2])); k = e.load(s, ptr(args[1], self.k.off), 4, 32)
            if v is None or b is None or not all(isc(x) for x in b):
                self.odd.append('%s: %r' % (locstr(i), (v, b))); return None
            vs = [v[cv(x)] if cv(x) < len(v) else mk('outside', cv(x)) for x in b]
            w = e.width(i.get('t'))
            t = self.sat(k, vs)
            if isc(k) and cv(k) == self.NULLP: t = TRUE
            t = e.known(s, t)
            if self.hyp(t) is not None: t = C(self.hyp(t), 1)
            if isc(t): return [('ret', s, C(cv(t), w))]
            out = []
            for v in (1, 0):
                s2 = s.copy()
                if e.assume(s2, t, v): out.append(('ret', s2, C(v, w)))
            return out
        sg = lib.sig(P, name)
        if sg.cls.startswith('std::uniform_int_distribution'):
            if sg.name == 'uniform_int_distribution' and len(args) >= 3: s.ver[mk('dist', args[0])] = mk('range', args[1], args[2]); return [('ret', s, None)]
            if sg.name == 'operator()':
                g = s.ver.get(mk('dist', args[0]))
                if g is None or not (isc(g.a[0]) and isc(g.a[1])): self.odd.append(locstr(i)); return None
                out = []
                for v in range(cv(g.a[0]), min(cv(g.a[1]), cv(g.a[0]) + 7) + 1):
                    s2 = s.copy(); s2.ts = ('pick', v); out.append(('ret', s2, C(v, e.width(i.get('t')))))
                return out
        if sg.cls.startswith('std::mersenne_twister_engine') and sg.name == 'operator()':
            out = []
            for v in range(6):
                s2 = s.copy(); s2.ts = ('mt', v); out.append(('ret', s2, C(v, e.width(i.get('t')))))
            return out
        return nolock(e, s, i, name, args, rt)
    def hyp(self, t): return self._hyp(t) if self._hyp else None
    _hyp = None
    def oracle(self, t):
        if self.types and t.op == 'mem0' and t.a[0].op == 'fwget' and t.a[0].a[0].op == 'var' and t.a[1] == self.sh.T.off: return self.al[0][0]
    def run(self, hyp=None):
        self._hyp = hyp
        return self.c.run(self.fn, cfg='q', args={5: C(self.seed, 32)}, init=self.init, model=self.model, oracle=self.oracle, exact=True, unroll=1 << 16, keyfn=facts, ts0=('q',), maxvisits=MAXV)
    # ---- the specification
    def conds(self):
        sh = self.sh
        for k in range(len(sh.pts)):
            yield ('match', k), icmp('eq', binop('and', 64, sh.st[k], A[6]), A[7])
            for i, al in enumerate(self.al):
                for j, a in enumerate(al):
                    for v in range(sh.pts[k]): yield ('type', a, k, v), icmp('eq', a, a if self.types else sh.ty(k, v))
    def expect(self, val, nohyp=False):
        """list of (point, [result variables]) for truth values val(condition term) of the conditions; val may raise Undecided"""
        sh = self.sh; out = []
        for k in range(len(sh.pts)):
            if not val(icmp('eq', binop('and', 64, sh.st[k], A[6]), A[7])): continue
            out.append((k, self.at_point(k, val)))
        return out
    def at_point(self, k, val):
        sh = self.sh
        def s(kind, vs):
            if isc(kind): return cv(kind) == self.NULLP
            t = self.sat(kind, vs)
            h = self.hyp(t)
            return h if h is not None else val(t)
        if not self.allow: res = [()]
        else:
            cand = []
            for i, al in enumerate(self.al): cand.append([v for v in range(sh.pts[k]) if any3(val, [icmp('eq', a, self.oracle(sh.ty(k, v)) or sh.ty(k, v)) for a in al])])
            res = [tuple(sh.vars[k][v] for v in b) for b in itertools.product(*cand)]
            res = [b for b in res if s(self.hk, b)]
        if self.soft and res:
            n = [sum(bool(s(p, b)) for p in self.sk) for b in res]
            res = [b for b, m in zip(res, n) if m == max(n)]
        return res
class Undecided(Exception): pass
def any3(val, ts):
    und = None
    for t in ts:
        try:
            if val(t): return True
        except Undecided as u: und = u
    if und: raise und
    return False

def check(c):
    groups = [(filtering, 'filter'), (types, 'type-compatible'), (hard, 'hard-predicate'), (softs, 'soft-predicates'), (novars, 'no-variables'), (seeds, 'seed'), (order, 'point-order')]
    for f, rule in groups:
        try: f(c)
        except AnalysisError as ex: c.unknown(rule, 'not analysed: %s' % ex)
def filtering(c): 
    table(c, Q(c, [0, 1, 1], [], 0, hard=False), 'filter', 'points whose masked statement id matches')
    table(c, Q(c, [], [], 0, hard=False), 'filter', 'an empty trace')
    q = Q(c, [1, 1, 1], [], 0, hard=False)
    # the list itself
    sh = Shape(q.P, A[0], [1, 1, 1])
    r = c.run('e_Trace_getPoints2', cfg='q', init=sh.init, model=nolock, exact=True, unroll=1 << 16, keyfn=facts, maxvisits=MAXV)
    for x in r.returns():
        got = lib.elems(lib.cval(r.e, x.state, x.value))
        ds = None if got is None else [decode(q.P, r.e, x.state, g) for g in got]
        if ds is None or None in ds: c.unknown('filter', 'the list of matching points: %r' % (lib.cval(r.e, x.state, x.value),), x.loc); continue
        ids = [sh.cnt.index(d[0]) if d[0] in sh.cnt else None for d in ds]
        conds = [icmp('eq', binop('and', 64, sh.st[k], A[1]), A[2]) for k in range(3)]
        vals = [r.e.known(x.state, t) for t in conds]
        if all(isc(v) for v in vals): c.check(ids == [k for k in range(3) if cv(vals[k])], 'filter', 'the list of matching points', sites(r, q.P), repr((ids, vals)))
        else:
            dom = {A[1]: [0, 1, 0xf0, (1 << 64) - 1], A[2]: [0, 1, 0x10, 1 << 40]}
            for t in sh.st: dom[t] = [0, 1, 0x11, 1 << 40]
            a = refute(r, x, dom, lambda m: [k for k in range(3) if teval(conds[k], m)] != ids)
            if a: c.bad('filter', 'the list of matching points is not what the mask and statement select (mask %#x, statement %#x)' % (a[A[1]], a[A[2]]), sites(r, q.P))
            else: c.unknown('filter', 'the condition on the statement id was not understood', sites(r, q.P))
def types(c):
    table(c, Q(c, [2], [2], 0), 'type-compatible', 'bindings of allowed types')
    table(c, Q(c, [2], [0], 0), 'type-compatible', 'a free variable that allows no type')
    table(c, Q(c, [0], [1], 0), 'type-compatible', 'a point without variables')
    table(c, Q(c, [1], [3], 0), 'type-compatible', 'three allowed types')
def hard(c):
    table(c, Q(c, [2], [1, 1], 0), 'hard-predicate', 'bindings for which the predicate holds')
    table(c, Q(c, [3], [1], 0, types=True), 'hard-predicate', 'bindings for which the predicate holds')
    table(c, Q(c, [2], [1, 1, 1], 0, hard=False, types=True), 'hard-predicate', 'without a predicate')
def softs(c):
    q = Q(c, [3], [1], 2, hard=False, types=True)
    table(c, q, 'soft-predicates', 'the most soft predicates')
    table(c, Q(c, [2], [1], 1, types=True), 'soft-predicates', 'the most soft predicates, after the hard one')
    table(c, Q(c, [2, 2], [1], 1, hard=False, types=True), 'soft-predicates', 'the most soft predicates at each point')
    table(c, Q(c, [2], [1, 1], 1, hard=False, types=True), 'soft-predicates', 'two free variables and a soft predicate')
def novars(c):
    table(c, Q(c, [1, 2, 0], [], 0, hard=False), 'no-variables', 'one result per point')
    table(c, Q(c, [1, 2], [], 1, hard=False), 'no-variables', 'one result per point with a soft predicate')
def order(c): table(c, Q(c, [1, 2], [1], 0), 'point-order', 'results of two points')
def seeds(c):
    table(c, Q(c, [1, 1], [1], 0, seed=7), 'seed', 'a query with a seed')
    table(c, Q(c, [], [1], 0, seed=7), 'seed', 'a query with a seed over no points')
    table(c, Q(c, [2], [1], 1, seed=7, types=True), 'seed', 'a query with a seed and soft predicates')
def sites(r, P):
    for ev in r.events:
        if lib.sig(P, ev.name).cls == 'std::vector' and lib.sig(P, ev.name).name in ('push_back', 'emplace_back') and 'Trace.hpp' in ev.loc: return ev.loc
    return '?'

def table(c, q, rule, what):
    P = q.P; sh = q.sh
    r = q.run()
    shape = '%s (%d points, %d free variables, %d soft predicates)' % (what, len(sh.pts), len(q.allow), q.soft)
    if q.odd: c.unknown(rule, shape + ': ' + q.odd[0][:200]); return
    rets = r.returns()
    for x in r.exits:
        if x.kind == 'oob':
            if q.seed and x.state.ts[0] == 'pick': c.bad(rule, shape + ': the point chosen is not one of those considered', x.loc); return
            c.bad(rule, shape + ': element %d of %d is used' % (x.value.a[1] + 1, x.value.a[2]), x.loc); return
    if not rets: c.unknown(rule, shape + ': no result'); return
    for x in rets:
        v = lib.cval(r.e, x.state, A[0]); es = lib.elems(v)
        ds = None if es is None else [decode(P, r.e, x.state, t) for t in es]
        loc = sites(r, P)
        if q.seed and isinstance(x.state.ts, tuple) and x.state.ts[0] == 'pick':
            ks = [r.e.known(x.state, icmp('eq', binop('and', 64, t, A[6]), A[7])) for t in sh.st]
            if all(isc(k) for k in ks):
                n = sum(cv(k) for k in ks)
                if not c.check(x.state.ts[1] < n, 'seed', 'the point chosen is one of the %d considered' % n if x.state.ts[1] < n else 'the point chosen is not one of the %d considered' % n, loc): continue
        if ds is None or None in ds:
            c.unknown(rule, shape + ': the results were not followed: %r' % (v,), loc); continue
        got = []; ok = True
        for cnt, st, bs, vs, aux in ds:
            k = sh.cnt.index(cnt) if cnt in sh.cnt else None
            if k is None:
                if cnt.op in ('c', 'stmt', 'mem0') and not (q.seed and cnt.op == 'mem0'): c.bad(rule, shape + ': a result does not keep the counter of its point', loc, repr(cnt)); ok = False; break
                c.unknown(rule, shape + ': counter %r' % (cnt,), loc); ok = False; break
            keep = [('statement id', st, [sh.st[k]]), ('allocation records', bs, [sh.content(k, 'buffersizes')]), ('auxiliary data', aux, [sh.content(k, 'aux')])]
            if not q.allow: keep = [keep[0]] + [(n, t, w + [mk('vempty')]) for n, t, w in keep[1:]]
            for n, t, w in keep:
                if t in w: c.ok(rule)
                elif t.op in ('c', 'stmt', 'counter', 'cont0', 'mem0', 'vempty', 'vpush'): c.bad(rule, shape + ': a result does not keep the %s of its point' % n, loc, repr(t)); ok = False
                else: c.unknown(rule, shape + ': %s %r' % (n, t), loc); ok = False
            got.append((k, tuple(vs)))
        if not ok: continue
        judge_row(c, q, r, x, rule, shape, got, loc)
def canon(res): return [(k, sorted(y.id for y in [])) for k in res]
def norm(lst):
    """results grouped by point in order; the order within a point does not matter"""
    out = []
    for k, vs in lst:
        if out and out[-1][0] == k: out[-1][1].append(tuple(v.id for v in vs))
        else: out.append((k, [tuple(v.id for v in vs)]))
    return [(k, sorted(l)) for k, l in out]
def want(q, val):
    return norm([(k, b) for k, l in q.expect(val) for b in l])
def wants(q, val, x):
    """acceptable results"""
    if not q.seed: return [want(q, val)]
    e = q.expect(val)
    if not e: return [[]]
    return [norm([(k, b) for b in l]) for k, l in e]
def judge_row(c, q, r, x, rule, shape, got, loc):
    g = norm(got)
    def known(t):
        k = r.e.known(x.state, t)
        if isc(k): return bool(cv(k))
        # a predicate that is known to be the null predicate holds
        if t.op == 'sat':
            z = r.e.known(x.state, icmp('eq', t.a[0], C(q.NULLP, 32)))
            if isc(z) and cv(z): return True
        raise Undecided(t)
    try:
        ws = wants(q, known, x)
        c.check(g in ws, rule, shape + (': exactly the results that pass' if g in ws else ': the results are not the bindings that pass every filter'), loc, 'got %r, expected %r when %s' % (g, ws, guards(x)))
        return
    except Undecided as u: pass
    if q.seed and x.state.ts[0] == 'pick':
        # only the chosen point is looked at
        for k in range(len(q.sh.pts)):
            try:
                if norm([(k, b) for b in q.at_point(k, known)]) == g and known(icmp('eq', binop('and', 64, q.sh.st[k], A[6]), A[7])): c.ok(rule, 1, shape); return
            except Undecided: pass
    dom = {A[6]: [0, 1, 0xf0, (1 << 64) - 1], A[7]: [0, 1, 0x10, 1 << 40]}
    for t in q.sh.st: dom[t] = [0, 1, 0x11, 1 << 40]
    for al in q.al:
        for a in al: dom[a] = [1, 2, 3]
    for k in range(len(q.sh.pts)):
        for v in range(q.sh.pts[k]): dom[q.sh.ty(k, v)] = [1, 2, 3]
    sats = set()
    def collect(t):
        if t.op == 'sat': sats.add(t); return False
        if t.op == 'icmp': return True
    for combo in (0, 1):
        try: q.expect(lambda t: (sats.add(t) or bool(combo)) if t.op == 'sat' else True)
        except Undecided: pass
    for t in x.state.facts:
        for y in subterms(t):
            if y.op == 'sat': sats.add(y)
    for t in sats: dom[t] = [0, 1]
    a = refute(r, x, dom, lambda m: g not in wants(q, lambda t: teval(t, m), x))
    if a: c.bad(rule, shape + ': the results are not the bindings that pass every filter', loc, 'got %r when %s; but they should differ for %s' % (g, guards(x), {str(k)[:60]: v for k, v in a.items()}))
    else: c.unknown(rule, shape + ': a condition was not understood', loc)
def guards(x): return ', '.join('%s%s' % ('' if cv(v) else 'not ', str(t)[:120]) for t, v in x.state.facts.items() if isc(v))[:1500]
