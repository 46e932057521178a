"""Exact abstract interpretation of a query with a symbolic non-zero seed over traces of known shape, in which a draw of the generator yields
each value of its range in turn. The generator must be set up inside the query from the seed (and numbers of points) alone, must not be reused
from an earlier query, and nothing else that varies from run to run (clock, other generators, addresses) may be read. The values of the
draw must map onto the considered points: every one is chosen, by equally many values, and the results are those of the chosen point.
The foreign function must hand on the seed it was given."""
from rules.common import *
from rules.shapes import *
from rules import c09
import collections

RULES = {'chosen-point': 10, 'every-point': 6, 'generator-state': 4, 'other-sources': 2, 'seed-passed': 1}
VARYING = re.compile(r'(^|::)(rand|random|rand_r|srand|drand48|lrand48|time|clock|clock_gettime|gettimeofday|getpid|gettid|pthread_self|arc4random|getrandom|__rdtsc)$|std::random_device|::now\b|this_thread')
NV = 12
SEED = mk('seedarg', w=32)
class S(c09.Q):
    def __init__(self, c, match, vars_=0, allow=(), cand=None):
        super().__init__(c, [vars_] * len(match), list(allow), 0, hard=False)
        self.match = match; self.cand = cand; self.seeds = []; self.state = []; self.sources = []
        self.hk = C(self.NULLP, 32)
    def oracle(self, t):
        sh = self.sh
        for k, m in enumerate(self.match):
            if t is icmp('eq', binop('and', 64, sh.st[k], A[6]), A[7]): return int(m)
        if t.op == 'mem0' and t.a[0].op == 'fwget' and t.a[0].a[0].op == 'var' and t.a[1] == sh.T.off and t.a[2] == sh.T.sz and self.cand is not None:
            return self.al[0][0] if self.cand[t.a[0].a[0].a[0]] else None
        if t.op == 'icmp' and t.a[0] == 'eq' and self.cand is not None and self.al and {t.a[1].op, t.a[2].op} == {'allow', 'mem0'}: return 0
        if t is icmp('eq', SEED, C(0, 32)): return 0
    def model(self, e, s, i, name, args, rt):
        P = self.P; sg = lib.sig(P, name); q = P.qual.get(name, name)
        if VARYING.search(q.split('|')[0]): 
            if e.final: self.sources.append((q.split('|')[0], locstr(i)))
        if sg.cls.startswith('std::mersenne_twister_engine') and sg.name != 'operator()':
            if sg.name in ('mersenne_twister_engine', 'seed'):
                t = args[1] if len(args) > 1 else mk('default')
                # by reference
                if len(args) > 1 and t.op in ('alloca', 'ptr', 'off', 'addr') and t.w == 64: t = e.load(s, t, 8, 64)
                s.ver[mk('gen', args[0])] = t
                if e.final: self.seeds.append((t, locstr(i)))
                return [('ret', s, None)]
        if sg.name == 'operator()' and (sg.cls.startswith('std::uniform_int_distribution') or sg.cls.startswith('std::mersenne_twister_engine')):
            g = args[1] if sg.cls.startswith('std::uniform_int') and len(args) > 1 else args[0]
            if e.final: self.state.append((g, s.ver.get(mk('gen', g)), locstr(i)))
            if sg.cls.startswith('std::mersenne'): vals = range(NV)
            else:
                d = s.ver.get(mk('dist', args[0]))
                if d is None or not (isc(d.a[0]) and isc(d.a[1])): self.odd.append(locstr(i)); return None
                vals = range(cv(d.a[0]), min(cv(d.a[1]), cv(d.a[0]) + NV - 1) + 1)
            out = []
            for v in vals:
                s2 = s.copy(); s2.ts = ('pick', (s.ts[1] if s.ts[0] == 'pick' else ()) + (v,)); out.append(('ret', s2, C(v, e.width(i.get('t')))))
            return out
        return super().model(e, s, i, name, args, rt)
    def run(self): return self.c.run(self.fn, cfg='q', args={5: SEED}, init=self.init, model=self.model, oracle=self.oracle, exact=True, unroll=1 << 16, keyfn=facts, ts0=('q',), maxvisits=MAXV)

def check(c):
    P = c.prog('q')
    for m in ([1], [1, 1], [1, 1, 1], [1, 0, 1], [0, 1, 0, 1], [0, 0], [1, 1, 1, 1]):
        try: one(c, S(c, m), 'no free variables')
        except AnalysisError as ex: c.unknown('chosen-point', str(ex))
    for cand in ([0, 1], [1, 0], [1, 1], [0, 0]):
        try: one(c, S(c, [1, 1], 1, [1], cand), 'a free variable with candidates at %s points' % sum(cand))
        except AnalysisError as ex: c.unknown('chosen-point', str(ex))
    passed(c)
def one(c, q, what):
    r = q.run(); n = sum(q.match); sh = q.sh
    what = '%d of %d points considered, %s' % (n, len(q.match), what)
    for s, l in q.sources: c.bad('other-sources', 'the result depends on %s' % s, l)
    if not q.sources: c.ok('other-sources', 1, what)
    for g, t, l in q.state:
        if t is not None: seeded(c, q, t, l)
        else:
            b = split(g)[0] if g is not None else None
            if b is not None and b.op == 'glob': c.bad('generator-state', 'the generator keeps its state from one query to the next', l)
            elif b is not None and (root(g) is A[1] or b.op == 'mem0' and root(b.a[0]) is A[1]): c.bad('generator-state', 'the generator is kept in the trace from one query to the next', l)
            else: c.unknown('generator-state', 'where the generator comes from was not followed: %r' % (g,), l)
    if q.odd: c.unknown('chosen-point', what + ': ' + q.odd[0][:160]); return
    loc = c09.sites(r, q.P)
    by = collections.defaultdict(set); ok = True
    for x in r.exits:
        if x.kind == 'oob': c.bad('chosen-point', what + ': a point outside of those considered is chosen', x.loc); return
    considered = [k for k, m in enumerate(q.match) if m]
    for x in r.returns():
        es = lib.elems(lib.cval(r.e, x.state, A[0]))
        ds = None if es is None else [decode(q.P, r.e, x.state, t) for t in es]
        if ds is None or None in ds: c.unknown('chosen-point', what + ': the results were not followed', loc); ok = False; continue
        ks = [sh.cnt.index(d[0]) if d[0] in sh.cnt else None for d in ds]
        if None in ks: c.unknown('chosen-point', what + ': the point of a result was not followed', loc); ok = False; continue
        if len(set(ks)) > 1: c.bad('chosen-point', what + ': results of more than one point', loc); ok = False; continue
        if ks and ks[0] not in considered: c.bad('chosen-point', what + ': results of a point that is not considered', loc); ok = False; continue
        c.ok('chosen-point', 1, what)
        by[ks[0] if ks else None].add(x.state.ts)
    if not ok: return
    if n == 0: c.check(set(by) <= {None}, 'every-point', what + ': no result', loc); return
    giving = [k for k in considered if q.cand is None or q.cand[k]]
    picks = {k: set(t for t in v if t[0] == 'pick') for k, v in by.items()}
    if not any(picks.values()):
        if n > 1: 
            # no draw of a known generator: the choice may be computed in another way
            undrawn = set().union(*by.values())
            if len(by) == 1 and not q.odd and None not in by and q.cand is None: c.bad('every-point', what + ': always the same point is chosen', loc)
            else: c.unknown('every-point', what + ': how the point is chosen was not followed', loc)
        else: c.ok('every-point', 1, what)
        return
    lost = [k for k in giving if not picks.get(k)]
    if lost: c.bad('every-point', what + ': considered point %d is never chosen' % (considered.index(lost[0]) + 1), loc); return
    w = {k: len(picks[k]) for k in giving}
    w['other'] = len(picks.get(None, ())) / max(1, n - len(giving)) if n > len(giving) else None
    ws = set(v for v in w.values() if v is not None)
    c.check(len(ws) <= 1, 'every-point', what + (': each is chosen by as many values' if len(ws) <= 1 else ': some points are chosen more often than others'), loc, repr(w))
def seeded(c, q, t, l):
    s = t
    while s.op in ('zext', 'sext', 'trunc'): s = s.a[0]
    if s is SEED or leaves(t, {SEED}) and SEED in subterms(t):
        b = image(t)
        if b is not None and b < 1 << 16: c.bad('every-point', 'the seed is reduced to at most %d values before it is used' % b, l)
        else: c.ok('generator-state', 1, 'the generator is set up from the seed')
    elif isc(t) or t.op == 'default': c.bad('generator-state', 'the generator is not set up from the seed', l)
    elif any(VARYING.search(str(y.a[0])) for y in subterms(t) if y.op in ('call', 'ret', 'ev') and y.a and isinstance(y.a[0], str)): c.bad('other-sources', 'the generator is set up from something that changes from query to query', l)
    else: c.unknown('generator-state', 'what the generator is set up from was not followed: %r' % (t,), l)
def image(t):
    """a bound on the number of values of t, or None"""
    if t.op == 'c': return 1
    if t.op in ('and',) and any(isc(x) for x in t.a): return 1 << bin(cv([x for x in t.a if isc(x)][0])).count('1')
    if t.op == 'urem' and isc(t.a[1]): return cv(t.a[1])
    if t.op == 'lshr' and isc(t.a[1]): return 1 << max(0, t.w - cv(t.a[1]))
    if t.op == 'trunc': return min(1 << t.w, image(t.a[0]) or 1 << 64)
    if t.op in ('zext', 'sext'): return image(t.a[0])
    if t.op in ('add', 'sub', 'xor', 'or', 'mul', 'shl') and sum(isc(x) for x in t.a) == 1: return image([x for x in t.a if not isc(x)][0])
    return None
def passed(c):
    """the C function hands on its seed"""
    P = c.prog()
    names = P.params('query_trace') if hasattr(P, 'params') else None
    r = c.run('query_trace', args={7: SEED})
    found = False
    for ev in r.events:
        sg = lib.sig(P, ev.name)
        if sg.cls.startswith('std::mersenne_twister_engine') and sg.name in ('mersenne_twister_engine', 'seed') and len(ev.args) > 1:
            found = True
            t = ev.args[1]; s = t
            while s.op in ('zext', 'trunc') and s.w >= 32: s = s.a[0]
            if s is SEED: c.ok('seed-passed', 1, 'query_trace hands on its seed')
            elif isc(s): c.bad('seed-passed', 'query_trace does not hand on its seed', ev.loc, repr(t))
            elif leaves(t, {SEED}): 
                b = image(t)
                if b is not None and b < 1 << 16: c.bad('seed-passed', 'query_trace reduces the seed to at most %d values' % b, ev.loc, repr(t))
                else: c.ok('seed-passed', 1, 'query_trace hands on its seed')
            elif root(s) in [A[k] for k in range(13) if k != 7] and s.op in ('arg', 'zext', 'trunc'): c.bad('seed-passed', 'query_trace hands on something else than its seed', ev.loc, repr(t))
            else: c.unknown('seed-passed', 'the seed was not followed: %r' % (t,), ev.loc)
    if not found: c.unknown('seed-passed', 'no generator is set up in query_trace')
