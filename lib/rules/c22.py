"""Exact abstract interpretation of a query over a point whose variables have known types and free variables with known allowed types, so
that the candidates of every free variable are known while the variables themselves stay symbolic. The list of results without a
predicate, and the list of bindings handed to the hard predicate, must be the product of the candidate lists: every combination, none twice,
none that is not in the product. All vectors of candidate numbers up to four free variables with up to four candidates that are listed
(equal and unequal numbers, single candidates, none, shared and disjoint candidates) are analysed."""
from rules.common import *
from rules.shapes import *
from rules import c09
import itertools, collections

RULES = {'product': 20, 'tried': 30}
class K(c09.Q):
    """types: type index of each variable of the point; allow: allowed types per free variable"""
    def __init__(self, c, types, allow, hard=False):
        super().__init__(c, [len(types)], [len(a) for a in allow], 0, hard=hard)
        self.tv = types; self.al = [[C(t, 32) for t in a] for a in allow]; self.alt = allow; self.tried = []
        if hard: self.hk = C(self.P.enum('predicate_kind')['AND'], 32)
    def oracle(self, t):
        if t.op == 'mem0' and t.a[0].op == 'fwget' and t.a[0].a[0].op == 'var' and t.a[1] == self.sh.T.off and t.a[2] == self.sh.T.sz: return self.tv[t.a[0].a[0].a[1]]
        if t.op == 'icmp' and t is icmp('eq', binop('and', 64, self.sh.st[0], A[6]), A[7]): return 1
    def hyp(self, t): return 1        # every combination passes
    def model(self, e, s, i, name, args, rt):
        q = self.P.qual.get(name, name)
        if e.final and re.search(r'TracePoint(Data)?::(cachedS|s)atisfiesPredicate\|', q):
            b = lib.elems(lib.cval(e, s, args[2]))
            self.tried.append((None if b is None or not all(isc(x) for x in b) else tuple(cv(x) for x in b), locstr(i)))
        return super().model(e, s, i, name, args, rt)
    def candidates(self): return [[v for v, t in enumerate(self.tv) if t in a] for a in self.alt]
QUICK = [([1], [[1]]), ([1, 1], [[1]]), ([1, 2, 1], [[1], [2]]), ([1, 1, 1], [[1], [1]]), ([1, 1, 2, 2, 2], [[1], [2]]), ([2, 2, 2, 1, 1], [[2], [1]]), ([1, 1, 2, 3, 3], [[1], [2], [3]]), ([1, 2, 2], [[1, 2], [2]]),
         ([1, 1], [[1], [1], [1]]), ([1, 2, 3], [[1], [2], [3]]), ([1, 2, 2, 3, 3, 3], [[3], [2], [1]]), ([1, 2, 2, 3, 3, 3], [[1], [2], [3]]), ([1, 2, 2, 3, 3, 3], [[2], [1], [3]]), ([1, 1, 1, 1], [[1], [1]]), ([1, 1], [[1], [2]]), ([1, 1], [[2], [1]]), ([1], [[1], [1], [1], [1]]),
         ([1, 2, 2, 2, 2, 3], [[1], [2], [3]]), ([1, 1, 2, 2], [[1], [2], [1], [2]]), ([3, 1, 3, 2, 3], [[3], [1, 2]]), ([], [[1]]), ([1, 1, 2, 2, 2], [[1], [2], [1]])]
THOROUGH = [([1] * a + [2] * b + [3] * d, [[1], [2], [3]]) for a in (1, 2, 3) for b in (1, 2, 3) for d in (1, 2, 3)] + [([1] * 3, [[1]] * 4), ([1, 1, 2, 2, 2, 3, 3, 4], [[1], [2], [3], [4]])]

def check(c):
    for tv, al in QUICK + (THOROUGH if c.tier != 'quick' else []):
        for hard in (False, True):
            try: one(c, tv, al, hard)
            except AnalysisError as ex: c.unknown('product', 'variables of types %s, allowed %s: %s' % (tv, al, ex))
def one(c, tv, al, hard):
    q = K(c, tv, al, hard)
    r = c.run(q.fn, cfg='q', args={5: C(0, 32)}, init=q.init, model=q.model, oracle=q.oracle, exact=True, unroll=1 << 16, keyfn=facts, ts0=('q',), maxvisits=60000)
    cand = q.candidates(); want = collections.Counter(itertools.product(*cand))
    rule = 'tried' if hard else 'product'
    what = '%s candidates%s' % (' x '.join(str(len(x)) for x in cand), ' and a predicate' if hard else '')
    if q.odd: c.unknown(rule, what + ': ' + q.odd[0][:160]); return
    loc = c09.sites(r, q.P)
    for x in r.exits:
        if x.kind == 'oob': c.bad(rule, what + ': element %d of %d is used' % (x.value.a[1] + 1, x.value.a[2]), x.loc); return
    rets = r.returns()
    if not rets: c.unknown(rule, what + ': no result'); return
    for x in rets:
        es = lib.elems(lib.cval(r.e, x.state, A[0]))
        ds = None if es is None else [decode(q.P, r.e, x.state, t) for t in es]
        if ds is None or None in ds: c.unknown(rule, what + ': the results were not followed', loc); continue
        got = collections.Counter()
        for d in ds:
            b = tuple(q.sh.vars[0].index(v) if v in q.sh.vars[0] else None for v in d[3])
            got[b] += 1
        if any(None in b for b in got): c.unknown(rule, what + ': the variables of a result were not followed', loc); continue
        compare(c, rule, what, got, want, loc)
    if hard and len(rets) == 1:
        t = [b for b, l in q.tried]
        if None in t: c.unknown('tried', what + ': a binding handed to the predicate was not followed', q.tried[0][1]); return
        if t or want: compare(c, 'tried', what + ', bindings handed to it', collections.Counter(t), want, q.tried[0][1] if q.tried else loc)
def compare(c, rule, what, got, want, loc):
    lost = [b for b in want if not got[b]]; twice = [b for b in got if got[b] > 1]; extra = [b for b in got if b not in want]
    if got == want: c.ok(rule, 1, '%s: %d combinations, each once' % (what, len(want)))
    else: c.bad(rule, '%s: %s' % (what, 'the combination %s is not tried' % (lost[0],) if lost else 'the combination %s is not made of candidates' % (extra[0],) if extra else 'the combination %s is tried %d times' % (twice[0], got[twice[0]])), loc)
