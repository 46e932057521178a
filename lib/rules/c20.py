"""Abstract interpretation of query_trace, recursion included, over C predicates and free variables of known shape (every kind of predicate,
nested trees, numbers of operands, free variables, allowed types and soft predicates; all values, seed, mask, statement and index symbolic) up to
the call of the query. The predicate, free variable and list objects passed to it are read back from the abstract memory and compared with the C
structures member by member."""
from rules.common import *
from rules.shapes import *
from rules.carray import *
from rules.c11 import oob, shown, KW
from rules import loops

RULES = {'predicates': 60, 'free-variables': 8, 'soft-predicates': 8, 'arguments': 5, 'missing-predicate': 2}
VALUE = {'VAR_REFERENCE': 'var_index', 'UNSIGNED_VALUE': 'unsigned_value', 'SIGNED_VALUE': 'signed_value', 'FLOAT_VALUE': 'float_value'}

def check(c):
    P = c.prog('dd')
    loops.narrow_rule(c, P, ['query_trace'] + [n for n in P.fn if re.search(r'\(c_predicate const\*\)|\(c_predicate\*\)', P.qual.get(n, ''))], 'predicates', 'operands')
    for f, rule in [(predicates, 'predicates'), (free_variables, 'free-variables'), (softs, 'soft-predicates'), (missing, 'missing-predicate')]:
        try: f(c, P)
        except AnalysisError as ex: c.unknown(rule, 'not analysed: %s' % ex)
class Call:
    def __init__(self, c, P, hard=None, soft=(), fvs=()):
        self.c = c; self.P = P; self.hard = hard; self.soft = list(soft); self.fvs = list(fvs); self.calls = []
        self.K = P.enum('predicate_kind'); self.m = members(P, 'c_predicate'); self.fm = members(P, 'c_free_variable'); self.rec = P.records['c_predicate']
    def values(self, b):
        return {n: mk('pval', b, n) for n in VALUE.values()}
    def put(self, e, s, base, t, path):
        kind, ch = (t, []) if isinstance(t, str) else t
        m = self.m
        if kind not in self.K: raise AnalysisError('predicate kind %s not found' % kind)
        e.store(s, ptr(base, m['kind']['off']), 4, C(self.K[kind], 32))
        for n, v in self.values(path).items(): e.store(s, ptr(base, m[n]['off']), 8, v)
        e.store(s, ptr(base, m['n_children']['off']), 8, C(len(ch)))
        b = mk('blk', 'operands', path) if ch else C(0)
        e.store(s, ptr(base, m['children']['off']), 8, b)
        for j, x in enumerate(ch): self.put(e, s, ptr(b, j * self.rec['s']), x, '%s.%d' % (path, j))
    def expected(self, t, path):
        kind, ch = (t, []) if isinstance(t, str) else t
        v = self.values(path)
        return (self.K[kind], v[VALUE[kind]] if kind in VALUE else C(len(ch)), [self.expected(x, '%s.%d' % (path, j)) for j, x in enumerate(ch)])
    def init(self, e, s):
        if self.hard is not None: self.put(e, s, HARD, self.hard, 'hard')
        for j, t in enumerate(self.soft):
            b = mk('blk', 'soft%d' % j) if t is not None else C(0)
            e.store(s, ptr(A[5], 8 * j), 8, b)
            if t is not None: self.put(e, s, b, t, 'soft%d' % j)
        fs = self.P.records['c_free_variable']['s']
        for k, n in enumerate(self.fvs):
            b = ptr(A[2], k * fs); a = mk('blk', 'allow', k)
            e.store(s, ptr(b, self.fm['n_allowed_types']['off']), 4, C(n, 32)); e.store(s, ptr(b, self.fm['allowed_types']['off']), 8, a)
            for j in range(n): e.store(s, ptr(a, 4 * j), 4, mk('allow', k, j, w=32))
    def model(self, e, s, i, name, args, rt):
        q = self.P.qual.get(name, name)
        if re.match(r'Trace::query\|', q):
            s.ver[args[0]] = mk('vempty')
            if e.final: self.calls.append((e, s.copy(), args, locstr(i)))
            return [('ret', s, None)]
        return release_model(e, s, i, name, args, rt)
    def run(self):
        a = {3: C(len(self.fvs), 32), 4: HARD if self.hard is not None else C(0), 6: C(len(self.soft), 32), 8: C(1, 8)}
        n = 2000 + 60 * (sum(self.fvs) + len(self.fvs) + len(self.soft) + size(self.hard))
        return self.c.run('query_trace', cfg='dd', init=self.init, args=a, model=self.model, **{**KW, 'maxvisits': n})
    # ---- what is passed on
    def pred(self, e, s, t):
        """(kind, data, [children]) of a predicate value"""
        P = self.P
        if t.op != 'obj': return None
        k, d, ch = (lib.part(P, t, f.off, f.sz) for f in fields(P, 'Predicate'))
        if k is None or d is None or ch is None: return None
        es = lib.elems(lib.flatv(e, s, ch))
        if es is None: return None
        sub = [self.pred(e, s, x) for x in es]
        return None if None in sub else (cv(k) if isc(k) else k, d, sub)
    def pred_at(self, e, s, p): return self.pred(e, s, lib.record(e, s, p, self.P.records['Predicate']))
HARD = mk('blk', 'hardp')
def size(t): return 1 if t is None or isinstance(t, str) else 1 + sum(size(x) for x in t[1])
def compare(c, q, got, want, rule, what, loc):
    """walks both trees; reports the first difference"""
    if got is None: c.unknown(rule, what + ': the predicate was not followed', loc); return
    def walk(g, w, path):
        if g[0] != w[0]:
            if isinstance(g[0], int): return '%s is a predicate of another kind (%s)' % (path, g[0])
            return None if not isinstance(g[0], Term) else ('?', g[0])
        if g[1] is not w[1]:
            if g[1].op in ('pval', 'c', 'uninit', 'undef') or g[1].op in ('trunc', 'zext', 'sext', 'bytes') or g[1].op in ('select',) or g[1].op.startswith('op_f'): return '%s carries another value' % path
            return ('?', g[1])
        if len(g[2]) != len(w[2]): return '%s has %d operands instead of %d' % (path, len(g[2]), len(w[2]))
        for j, (x, y) in enumerate(zip(g[2], w[2])):
            r = walk(x, y, 'operand %d of %s' % (j + 1, path))
            if r: return r
        return None
    r = walk(got, want, 'it')
    if r is None: c.ok(rule, 1 + len(repr(want)) // 60, what)
    elif isinstance(r, tuple): c.unknown(rule, '%s: %r' % (what, r[1]), loc)
    else: c.bad(rule, '%s: %s' % (what, r), loc, 'got %r, expected %r' % (got, want))
def calls(c, q, rule, what):
    r = q.run()
    if oob(c, r, rule, what): return []
    if not q.calls:
        if not r.returns(): c.unknown(rule, what + ': no query'); return []
        c.unknown(rule, what + ': the query was not found')
    return q.calls
def trees(P):
    K = P.enum('predicate_kind')
    inner = [k for k in K if k not in VALUE and k != 'NULL_PREDICATE']
    for k in inner:
        yield (k, ['VAR_REFERENCE', 'SIGNED_VALUE'])
        yield (k, ['UNSIGNED_VALUE'])
    for k in VALUE: yield k
    yield ('AND', ['VAR_REFERENCE'] * 3 + ['FLOAT_VALUE'])
    yield ('OR', [('NOT', [('EQUAL', ['VAR_REFERENCE', 'UNSIGNED_VALUE'])]), ('LESS_THAN', [('ADD', ['VAR_REFERENCE', 'FLOAT_VALUE']), 'SIGNED_VALUE'])])
    yield ('AND', [('OR', ['VAR_REFERENCE', 'UNSIGNED_VALUE']), ('AND', ['SIGNED_VALUE', 'FLOAT_VALUE']), 'VAR_REFERENCE'])
    yield ('AND', [])
    yield 'NULL_PREDICATE'
def predicates(c, P):
    for t in trees(P):
        q = Call(c, P, hard=t)
        what = 'predicate %s' % shown(t)
        try: cs = calls(c, q, 'predicates', what)
        except AnalysisError as ex: c.unknown('predicates', '%s: %s' % (what, ex)); continue
        for e, s, a, loc in cs:
            compare(c, q, q.pred_at(e, s, a[3]), q.expected(t, 'hard'), 'predicates', what, loc)
            arguments(c, P, e, s, a, loc)
def arguments(c, P, e, s, a, loc):
    f = field(P, 'TraceDB', 'getTraces')
    tr = gep(lib.vbeg(mk('cont0', ptr(A[0], f.off), 0)), 0, [(A[1], P.records['Trace']['s'])])
    for got, want, name in ((a[1], tr, 'the trace'), (a[5], mk('arg', 7, w=32), 'the seed'), (a[6], A[9], 'the mask'), (a[7], A[10], 'the statement')):
        if got is want: c.ok('arguments', 1, name)
        else:
            t = got
            if t.op in ('arg', 'c', 'trunc', 'zext', 'sext', 'and', 'idx', 'select', 'add', 'sub', 'or', 'xor', 'shl', 'lshr'): c.bad('arguments', '%s passed to the query is not the one asked for' % name, loc, '%r instead of %r' % (got, want))
            else: c.unknown('arguments', '%s: %r' % (name, got), loc)
def free_variables(c, P):
    f = field(P, 'FreeVariable', 'getAllowedTypes')
    for fvs in ([], [0], [1], [3], [2, 1], [0, 2, 1], [1] * 5, [40], [1] * 260):
        q = Call(c, P, fvs=fvs); what = 'free variables with %s allowed types' % (fvs if len(fvs) < 9 else '%d times %d' % (len(fvs), fvs[0]))
        for e, s, a, loc in calls(c, q, 'free-variables', what):
            es = lib.elems(lib.cval(e, s, a[2]))
            if es is None: c.unknown('free-variables', what + ': not followed', loc); continue
            if not c.check(len(es) == len(fvs), 'free-variables', what + (': all are passed on' if len(es) == len(fvs) else ': %d are passed on' % len(es)), loc): continue
            for k, x in enumerate(es):
                v = lib.part(P, x, f.off) if x.op == 'obj' else None
                al = None if v is None else lib.elems(lib.flatv(e, s, v))
                if al is None: c.unknown('free-variables', what + ': allowed types not followed: %r' % (x,), loc); continue
                w = [mk('allow', k, j, w=32) for j in range(fvs[k])]
                if al == w: c.ok('free-variables', 1, what)
                elif all(y.op in ('allow', 'mem0', 'c', 'uninit') for y in al): c.bad('free-variables', what + ': free variable %d does not allow exactly the types listed for it' % k, loc, repr(al))
                else: c.unknown('free-variables', what + ': %r' % (al,), loc)
def softs(c, P):
    for soft in ([], ['VAR_REFERENCE'], ['SIGNED_VALUE', ('NOT', ['VAR_REFERENCE'])], [('EQUAL', ['VAR_REFERENCE', 'FLOAT_VALUE']), 'UNSIGNED_VALUE', ('AND', ['VAR_REFERENCE', 'VAR_REFERENCE'])], [None, 'VAR_REFERENCE'], ['VAR_REFERENCE'] * 260):
        q = Call(c, P, hard='VAR_REFERENCE', soft=soft)
        what = 'soft predicates %s' % (', '.join('none' if t is None else shown(t) for t in soft) if len(soft) < 9 else '(%d)' % len(soft))
        for e, s, a, loc in calls(c, q, 'soft-predicates', what):
            es = lib.elems(lib.cval(e, s, a[4]))
            if es is None: c.unknown('soft-predicates', what + ': not followed', loc); continue
            if not c.check(len(es) == len(soft), 'soft-predicates', what + (': all are passed on' if len(es) == len(soft) else ': %d are passed on' % len(es)), loc): continue
            for j, (x, t) in enumerate(zip(es, soft)):
                if t is None:
                    g = q.pred(e, s, x)
                    if g is None: c.unknown('missing-predicate', what, loc)
                    else: c.check(g[0] == q.K['NULL_PREDICATE'], 'missing-predicate', 'a missing soft predicate is the predicate that always holds', loc, repr(g[0]))
                else: compare(c, q, q.pred(e, s, x), q.expected(t, 'soft%d' % j), 'soft-predicates', what, loc)
            compare(c, q, q.pred_at(e, s, a[3]), q.expected('VAR_REFERENCE', 'hard'), 'soft-predicates', what + ', hard predicate', loc)
def missing(c, P):
    q = Call(c, P)
    for e, s, a, loc in calls(c, q, 'missing-predicate', 'a missing predicate'):
        g = q.pred_at(e, s, a[3])
        if g is None or isinstance(g[0], Term): c.unknown('missing-predicate', 'a missing predicate', loc)
        else: c.check(g[0] == q.K['NULL_PREDICATE'] and not g[2], 'missing-predicate', 'a missing predicate is the predicate that always holds' if g[0] == q.K['NULL_PREDICATE'] else 'a missing predicate is not the predicate that always holds', loc)
