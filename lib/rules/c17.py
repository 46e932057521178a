"""Abstract interpretation of query_trace over the results of a query of known shape (numbers of results and of variables per result, all ids,
names, types and values symbolic), with the hash set replaced by a model that looks elements up with the program's own equality. The list
handed out is read back as a decision table: for each row, the results must be exactly the first of each group of results with equal statement
id, number of variables, names and types. The values hashed must depend on nothing but these."""
from rules.common import *
from rules.shapes import *
from rules.carray import *
from rules.c11 import Query, oob, loc_of
from rules import loops

RULES = {'first-kept': 30, 'all-kept': 3, 'hash': 3}
SHAPES = [[], [0], [0, 0], [1, 1], [2, 2], [1, 2], [1, 1, 1], [0, 0, 0], [0, 1, 0], [2, 1, 2]]

def check(c):
    try: P = c.prog('dd')
    except AnalysisError: raise
    loops.narrow_rule(c, P, ['query_trace'], 'first-kept', 'variables compared')
    for vs in SHAPES:
        for keep in (0, 1, 2):
            if keep and vs not in ([1, 1], [0, 0, 0]): continue
            rule = 'all-kept' if keep else 'first-kept'
            try: table(c, P, vs, keep, rule)
            except AnalysisError as ex: c.unknown(rule, 'results with %s variables: %s' % (vs, ex))
def conds(sh):
    n = len(sh.pts)
    for a in range(n):
        for b in range(a): yield from dup_conds(sh, b, a)
def dup_conds(sh, a, b):
    yield icmp('eq', sh.st[a], sh.st[b])
    for j in range(min(sh.pts[a], sh.pts[b])):
        yield icmp('eq', sh.var(a, j, 'nameindex'), sh.var(b, j, 'nameindex'))
        yield icmp('eq', sh.var(a, j, 'typeindex'), sh.var(b, j, 'typeindex'))
class Undecided(Exception): pass
def dup(sh, a, b, val):
    if sh.pts[a] != sh.pts[b]: return False
    und = None
    for t in dup_conds(sh, a, b):
        try:
            if not val(t): return False
        except Undecided as u: und = u
    if und: raise und
    return True
def expect(sh, val):
    out = []
    for k in range(len(sh.pts)):
        for o in out:
            if dup(sh, o, k, val): break
        else: out.append(k)
    return out
def same_group(sh, val, k, o):
    return o == k or dup(sh, o, k, val)
def table(c, P, vs, keep, rule):
    q = Query(c, P, vs, [0] * len(vs), keep)
    what = '%d results with %s variables' % (len(vs), vs)
    r = q.run()
    sh = q.sh
    if oob(c, r, rule, what): return
    if not r.returns(): c.unknown(rule, what + ': no result'); return
    ps = P.records['c_trace_point_struct']['s']
    loc = site(r, P)
    for x in r.returns():
        n = r.e.load(x.state, q.nout, 8, 64); p = r.e.load(x.state, q.out, 8, 64)
        if not isc(n): c.unknown(rule, what + ': number of results %r' % (n,), loc); continue
        got = []
        for i in range(cv(n)):
            # which result: from the statement id and the variables of the entry
            st = get(P, r.e, x.state, ptr(p, i * ps), 'c_trace_point_struct', 'statement')
            got.append(sh.st.index(st) if st in sh.st else None)
        if None in got: c.unknown(rule, what + ': results not followed', loc); continue
        if keep:
            c.check(got == list(range(len(vs))), rule, what + (': all kept' if got == list(range(len(vs))) else ': not all of them are returned although duplicates are to be kept'), loc, repr(got)); continue
        def known(t):
            k = r.e.known(x.state, t)
            if isc(k): return bool(cv(k))
            raise Undecided(t)
        try:
            w = expect(sh, known)
            c.check(got == w, rule, what + (': exactly the first of each group' if got == w else ': not exactly the first of each group of duplicates'), loc, 'got %r, expected %r when %s' % (got, w, guards(x)))
            continue
        except Undecided: pass
        a = cases(r, x, list(conds(sh)), lambda val: expect(sh, val) != got)
        if a is False: c.ok(rule, 1, what + ': exactly the first of each group'); continue
        if a:
            c.bad(rule, what + ': not exactly the first of each group of duplicates', loc, 'got %r when %s' % (got, {str(k)[:90]: v for k, v in a.items()})); continue
        dom = {t: [1, 2, 1 << 40] for t in sh.st}
        for k in range(len(vs)):
            for j in range(vs[k]):
                for f in sh.V:
                    t = sh.var(k, j, f); dom[t] = [0, 1, 2] if t.w > 8 else [0, 1]
        for t in sh.cnt: dom[t] = [0, 1, 2]
        a = refute(r, x, dom, lambda m: expect(sh, lambda t: bool(teval(t, m))) != got)
        if a: c.bad(rule, what + ': not exactly the first of each group of duplicates', loc, 'got %r when %s, e.g. for %s' % (got, guards(x), {str(k)[:50]: v for k, v in a.items()}))
        else: c.unknown(rule, what + ': a condition was not understood: %s' % guards(x)[:300], loc)
    # what is hashed
    allowed = set(sh.st)
    for k in range(len(vs)):
        for j in range(vs[k]): allowed |= {sh.var(k, j, 'nameindex'), sh.var(k, j, 'typeindex')}
    for s, t, i in q.hashes:
        lf = [y for y in subterms(t) if y.op in ('mem0', 'cont0', 'stmt', 'counter', 'pdata', 'var', 'pad', 'alloca', 'aux', 'fwget', 'vbeg')]
        odd = [y for y in lf if y not in allowed and not inside(y, allowed, t) ]
        if any(y.op in ('uninit', 'undef') for y in subterms(t)): c.bad('hash', 'the hash of a result depends on uninitialized memory', locstr(i)); continue
        if not odd: c.ok('hash', 1, what)
        elif any(y.op in ('counter', 'mem0', 'aux', 'pad') for y in odd): c.bad('hash', 'the hash of a result depends on more than its statement id and the names and types of its variables', locstr(i), repr(odd[:3]))
        elif any(y.op in ('pdata', 'var') for y in odd): c.bad('hash', 'the hash of a result depends on the values of its variables', locstr(i), repr(odd[:3]))
        else: c.unknown('hash', 'what is hashed: %r' % (odd[:3],), locstr(i))
def inside(y, allowed, t):
    """y occurs in t only within allowed terms"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in allowed: continue
        if x is y: return False
        for z in x.a:
            if isinstance(z, Term): st.append(z)
            elif isinstance(z, tuple): st += [u for u in flat(z) if isinstance(u, Term)]
    return True
def site(r, P):
    for ev in r.events:
        if lib.sig(P, ev.name).cls == 'std::vector' and lib.sig(P, ev.name).name in ('push_back', 'emplace_back') and 'trace-db.cpp' in ev.loc: return ev.loc
    return loc_of(r)
def guards(x): return ', '.join('%s%s' % ('' if cv(v) else 'not ', str(t)[:120]) for t, v in x.state.facts.items() if isc(v))[:1200]
