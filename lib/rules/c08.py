"""Denotation of the evaluator, computed by abstract interpretation for every predicate kind: the recursive calls are events whose results
fork (boolean) or are named by the operand (number), so that the value returned for a kind is a term over the operands' values which must
be the operator of that kind applied to operand 0 and operand 1 in this order; conjunction, disjunction and negation are decided on all
outcomes of 0 to 3 operands and, for any number, by the loop running over all of them; variables are read per format and size. The
operators on values are analysed for all combinations of missing, integer and float operands, with the multiprecision operations as
uninterpreted terms and the zero test of a division forking. The printer is analysed per kind."""
from rules.common import *
from rules import loops

RULES = {'operator': 9, 'logic': 8, 'variable': 20, 'literal': 3, 'value-ops': 40, 'printed': 18, 'entry': 1}
LOGIC = ['AND', 'OR', 'NOT', 'NULL_PREDICATE', 'DISTINCT_VARS']
CMP = {'GREATER_THAN': '>', 'GREATER_THAN_OR_EQUAL': '>=', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL': '<=', 'EQUAL': '=='}
ARITH = {'ADD': '+', 'SUBTRACT': '-', 'MULTIPLY': '*', 'DIVIDE': '/'}
VALUES = ['VAR_SIZE', 'VAR_VALUE', 'SIGNED_VALUE', 'UNSIGNED_VALUE', 'FLOAT_VALUE']
TEXT = {'VAR_SIZE': 'v/size', 'VAR_VALUE': 'v/value', 'AND': 'and', 'OR': 'or', 'NOT': 'not', 'DISTINCT_VARS': 'distinct', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL': '<=',
        'GREATER_THAN': '>', 'GREATER_THAN_OR_EQUAL': '>=', 'EQUAL': '=', 'ADD': '+', 'SUBTRACT': '-', 'MULTIPLY': '*', 'DIVIDE': '/'}
SYM = {'ADD': ('+', True), 'MULTIPLY': ('*', True)}

def pvop(o, x, y):
    if o in ('>', '>='): o = {'>': '<', '>=': '<='}[o]; x, y = y, x
    if o in ('==', '+', '*') and x.id > y.id: x, y = y, x
    return mk('pvop', o, x, y, w=1) if o in ('<', '<=', '==') else mk('pvop', o, x, y)

class Ev:
    """the evaluator's functions"""
    def __init__(self, c):
        P = self.P = c.prog('pv')
        self.sat = self.val = None
        for n, f in P.fn.items():
            sg = lib.sig(P, n)
            if f.kind != 'recursive' or sg.cls not in ('EvaluatePredicate', '') or not any(lib.base_type(p) == 'Predicate' for p in sg.params) or 'ostream' in sg.full: continue
            if any('c_predicate' in p for p in sg.params): continue
            na = len(f.args) - len(sg.params)
            if f.ret == 'i1' or f.ret == 1: self.sat = n
            elif any('sret' in str(a) for a in f.args[:1]): self.val = n
    def place(self, n):
        """(argument index of this, of the predicate, of the result)"""
        sg = lib.sig(self.P, n); f = self.P.fn[n]
        sret = 1 if n == self.val else 0
        k = [j for j, p in enumerate(sg.params) if lib.base_type(p) == 'Predicate'][0]
        extra = len(f.args) - len(sg.params) - sret
        return (sret if extra else None), sret + extra + k, (0 if sret else None)

def check(c):
    E = Ev(c)
    P = E.P
    if E.sat is None or E.val is None: raise AnalysisError('the evaluator was not found')
    K = P.enum('predicate_kind')
    for name in K:
        if name not in LOGIC and name not in CMP and name not in ARITH and name not in VALUES and name != 'VAR_REFERENCE':
            c.unknown('operator', 'kind %s has no specified meaning' % name)
    for name in CMP: binary(c, E, K, name, E.sat)
    for name in ARITH: binary(c, E, K, name, E.val)
    logic(c, E, K)
    literals(c, E, K)
    variables(c, E, K)
    entry(c, E)
    values(c)
    printer(c, K)

# ---------------------------------------------------------------- the two recursive functions
def pred_parts(E, fn):
    P = E.P
    t, p, o = E.place(fn)
    kind, data, ch = [field(P, 'Predicate', g) for g in ('getKind', 'getData', 'getChildren')]
    return t, p, o, kind, data, ch
def oracle_for(E, fn, kv, n, child_kind=None, more=None):
    P = E.P
    t, p, o, kind, data, ch = pred_parts(E, fn)
    cont = ch.initial(A[p]); beg = lib.vbeg(cont)
    sz = P.records['Predicate']['s']
    def oracle(x):
        if x is kind.initial(A[p]): return kv
        if x.op == 'vsize' and x.a[0] is cont: return n
        if child_kind is not None and x.op == 'mem0' and x.a[0] is beg and x.a[2] == kind.sz and x.a[1] % sz == kind.off: return child_kind
        if more: return more(x)
    return oracle
def child(E, fn, k):
    t, p, o, kind, data, ch = pred_parts(E, fn)
    return ptr(lib.vbeg(ch.initial(A[p])), k * E.P.records['Predicate']['s'])
def modeller(E, const=None, own=None):
    """const: result of every operand; else outcomes fork and are remembered in ts"""
    P = E.P
    ps, pv = E.place(E.sat)[1], E.place(E.val)[1]
    def model(e, s, i, name, args, rt):
        if name == E.sat:
            x = args[ps]
            for (k, v) in s.ts:
                if k is x: return [('ret', s, C(v, 1))]
            if const is not None: return [('ret', s, C(const, 1))]
            out = []
            for v in (0, 1):
                s2 = s.copy(); s2.ts = s.ts + ((x, v),) if len(s.ts) < 6 else s.ts
                out.append(('ret', s2, C(v, 1)))
            return out
        if name == E.val:
            lib.setc(e, s, args[0], mk('eval', args[pv]))
            return [('ret', s, None), ('throw', s.copy(), 'lib')]
        sg = lib.sig(P, name)
        if sg.cls == 'PredicateValue':
            a = list(args); sret = a.pop(0) if i.get('sret') else None
            n = sg.name
            if n == 'PredicateValue':
                if not sg.params: v = mk('pv', 'none')
                elif lib.base_type(sg.params[0]) == 'PredicateValue': v = lib.content(e, s, a[1])
                elif lib.scalar_size(P, lib.base_type(sg.params[0])): v = mk('pv', lib.base_type(sg.params[0]), a[1])
                else: v = mk('pv', lib.base_type(sg.params[0])[:60], lib.value(e, s, a[1], sg.params[0]))
                lib.setc(e, s, a[0], v); return [('ret', s, None), ('throw', s.copy(), 'lib')]
            if n.startswith('~'): return [('ret', s, None)]
            if n.startswith('operator') and len(a) == 2:
                v = pvop(n[8:].strip(), lib.content(e, s, a[0]), lib.content(e, s, a[1]))
                if sret is not None: lib.setc(e, s, sret, v); return [('ret', s, None), ('throw', s.copy(), 'lib')]
                return [('ret', s, v), ('throw', s.copy(), 'lib')]
        return None
    return model
def result(E, fn, r, x):
    o = E.place(fn)[2]
    return r.e.known(x.state, x.value) if o is None else lib.content(r.e, x.state, A[o])
def handled(c, rule, name, r):
    """the kind is evaluated at all"""
    if r.returns(): return True
    c.bad(rule, 'predicates of kind %s are not evaluated' % name, where(r)); return False
def where(r):
    for x in r.exits:
        if 'cffi-interface' in x.loc: return x.loc
    return '?'
def binary(c, E, K, name, fn):
    op = CMP.get(name) or ARITH[name]
    r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K[name], 2), model=modeller(E), ts0=())
    if not handled(c, 'operator', name, r): return
    x0, x1 = mk('eval', child(E, fn, 0)), mk('eval', child(E, fn, 1))
    want = pvop(op, x0, x1)
    for x in r.returns():
        v = result(E, fn, r, x)
        if v is want: c.ok('operator', 1, '%s applies %s to operand 0 and 1' % (name, op))
        elif v.op in ('c', 'pv', 'eval') or v.op == 'pvop' and all(y.op in ('eval', 'pv') for y in v.a[1:]): c.bad('operator', '%s does not apply %s to its first and second operand' % (name, op), opsite(r) or x.loc, repr(v))
        elif v.op == 'not' and v.a[0].op == 'pvop' and v.w == 1: c.bad('operator', '%s is evaluated as the negation of another comparison, which holds when a value is missing' % name, opsite(r) or x.loc, repr(v))
        elif v.op in ('uninit', 'cuninit', 'undef'): c.bad('operator', 'the result of %s is undefined' % name, x.loc)
        else: c.unknown('operator', '%s: %r' % (name, v), x.loc)
def opsite(r):
    for ev in r.events:
        if lib.sig(r.e.prog, ev.name).cls == 'PredicateValue' and lib.sig(r.e.prog, ev.name).name.startswith('operator'): return ev.loc
    return None
def logic(c, E, K):
    fn = E.sat
    for name in ('AND', 'OR', 'NOT', 'NULL_PREDICATE'):
        for n in ({'NOT': (1,), 'NULL_PREDICATE': (0,)}.get(name) or (0, 1, 2, 3)):
            r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K[name], n), model=modeller(E), ts0=(), unroll=8)
            if not handled(c, 'logic', name, r): break
            kids = [child(E, fn, k) for k in range(n)]
            for x in r.returns():
                v = result(E, fn, r, x); out = dict(x.state.ts)
                res = [out.get(k) for k in kids]
                what = '%s of %d operands' % (name, n)
                if any(k not in kids for k in out):
                    if all(split(k)[0] is split(child(E, fn, 0))[0] and isinstance(split(k)[1], int) and k.op != 'phi' for k in out): c.bad('logic', what + ' evaluates something that is not an operand', x.loc)
                    else: c.unknown('logic', what + ': operands %r' % (list(out),), x.loc)
                    continue
                if not isc(v): c.unknown('logic', what + ': %r' % (v,), x.loc); continue
                got = cv(v)
                if name == 'AND': ok = got == 1 and all(y == 1 for y in res) or got == 0 and 0 in res
                elif name == 'OR': ok = got == 0 and all(y == 0 for y in res) or got == 1 and 1 in res
                elif name == 'NOT': ok = res[0] is not None and got == 1 - res[0]
                else: ok = got == 1
                c.check(ok, 'logic', what + (' has its logical meaning' if ok else ' is %s although its operands are %s' % (bool(got), [{None: 'not evaluated', 0: 'false', 1: 'true'}[y] for y in res])), x.loc)
    for name, const in (('AND', 1), ('OR', 0)):
        N = 1 << 20
        r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K[name], N), model=modeller(E, const), ts0=())
        ch = pred_parts(E, fn)[5].initial(A[E.place(fn)[1]])
        loops.cover(c, r, 'logic', '%s evaluates all of its operands' % name, ch, C(N))
    # distinct variables
    t, p, o, kind, data, ch = pred_parts(E, fn)
    r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K['DISTINCT_VARS'], 2, K['VAR_REFERENCE']), model=modeller(E), ts0=())
    if handled(c, 'logic', 'DISTINCT_VARS', r):
        v0, v1 = [lib.content(r.e, r.returns()[0].state, variable(E, fn, k)) for k in (0, 1)]
        eq = mk('fweq', *((v0, v1) if v0.id < v1.id else (v1, v0)), w=1)
        for x in r.returns():
            v = result(E, fn, r, x)
            if v is notb(eq): c.ok('logic', 1, 'DISTINCT_VARS')
            elif v is eq or isc(v) or v.op in ('fweq', 'not') and all(y.op == 'fweq' for y in [v if v.op == 'fweq' else v.a[0]]): c.bad('logic', 'DISTINCT_VARS does not tell whether the two variables differ', x.loc, repr(v))
            else:
                miss = unread(E, r, v0, v1)
                if miss: c.bad('logic', 'DISTINCT_VARS does not take the %s of the variables into account' % miss, x.loc, repr(v))
                else: c.unknown('logic', 'DISTINCT_VARS: %r' % (v,), x.loc)
def unread(E, r, v0, v1):
    """a field of the variables that the comparison never looks at"""
    base = {mk('fwget', v0): set(), mk('fwget', v1): set()}
    for ev in r.events:
        if ev.name == '!load':
            b, o = split(ev.args[0])
            if b in base: base[b].add(o)
        elif not ev.name.startswith('!'):
            sg = lib.sig(E.P, ev.name)
            for a in ev.args:
                if split(a)[0] in base and not sg.name.startswith('get'): return None    # compared by something else
            if sg.cls == 'boost::flyweights' or 'hash' in sg.full: return None
    for f in fields(E.P, 'TraceVarInfo'):
        if any(not any(f.off <= o < f.off + f.sz for o in os) for os in base.values()): return f.name
    return None
def variable(E, fn, k):
    """location of the variable that operand k refers to"""
    t, p, o, kind, data, ch = pred_parts(E, fn)
    vs = field(E.P, 'EvaluatePredicate', 'getVariables').initial(A[t])
    beg = lib.vbeg(ch.initial(A[p])); sz = E.P.records['Predicate']['s']
    d = mk('mem0', beg, k * sz + data.off, 8, 0, w=64)
    return gep(lib.vbeg(vs), 0, [(d, 8)])
def literals(c, E, K):
    fn = E.val
    t, p, o, kind, data, ch = pred_parts(E, fn)
    for name, ty in (('SIGNED_VALUE', 'long'), ('UNSIGNED_VALUE', 'unsigned long'), ('FLOAT_VALUE', 'double')):
        r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K[name], 0), model=modeller(E), ts0=())
        if not handled(c, 'literal', name, r): continue
        for x in r.returns(): number(c, 'literal', name, result(E, fn, r, x), ty, data.initial(A[p]), x)
CLS = {'long': 's', 'long long': 's', 'int': 's', 'short': 's', 'signed char': 's', 'char': 's', 'unsigned long': 'u', 'unsigned long long': 'u', 'unsigned int': 'u', 'unsigned short': 'u', 'unsigned char': 'u', 'bool': 'u', 'double': 'f', 'float': 'f'}
def number(c, rule, what, v, ty, want, x, bits=None):
    """v is the value of `want` as a number of type ty"""
    if v.op != 'pv': c.unknown(rule, what + ': %r' % (v,), x.loc); return
    if v.a[0] == 'none': c.bad(rule, what + ' has no value', x.loc); return
    if v.a[0] not in CLS: c.unknown(rule, what + ': built from %s' % v.a[0], x.loc); return
    if CLS[v.a[0]] != CLS[ty]: c.bad(rule, what + ' is read as %s' % v.a[0], x.loc); return
    if CLS[ty] == 'f' and v.a[0] != ty and v.a[1] is want: c.bad(rule, what + ' is read as %s' % v.a[0], x.loc); return
    t = v.a[1]
    if t is want: c.ok(rule, 1, what + ' is read as %s' % ty); return
    u = t; narrow = 64
    while u.op in ('zext', 'sext', 'trunc', 'fit'): narrow = min(narrow, u.w); u = u.a[0]
    if u.op == 'mem0' and want.op == 'mem0' and u.a[0] is want.a[0] and u.a[1] == want.a[1]:
        narrow = min(narrow, u.w)
        if bits and narrow < bits: c.bad(rule, what + ' is truncated to %d bits' % narrow, x.loc, repr(t)); return
        if not bits and narrow < want.w: c.bad(rule, what + ' is truncated to %d bits' % narrow, x.loc, repr(t)); return
        c.unknown(rule, what + ': %r' % (t,), x.loc); return
    if isc(u) or u.op == 'mem0': c.bad(rule, what + ' is read from something else', x.loc, repr(t)); return
    c.unknown(rule, what + ': %r' % (t,), x.loc)
def variables(c, E, K):
    P = E.P; fn = E.val
    F = P.enum('type_format')
    V, T, Z, B, H = [field(P, 'TraceVarInfo', g) for g in ('getValue', 'getTypeFormat', 'getSize', 'getBufferSize', 'hasBufferSize')]
    loc0 = variable(E, fn, 0)
    base = mk('fwget', mk('cont0', loc0, 0))
    def at(f): b, o = split(ptr(base, f.off)); return mk('mem0', b, o, f.sz, 0, w=8 * f.sz)
    for h in (0, 1):
        r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K['VAR_SIZE'], 1, K['VAR_REFERENCE'], {at(H): h}.get), model=modeller(E), ts0=())
        if not handled(c, 'variable', 'VAR_SIZE', r): continue
        for x in r.returns():
            v = result(E, fn, r, x)
            if h: number(c, 'variable', 'the buffer size of a variable', v, 'unsigned long', at(B), x)
            elif v.op == 'pv': c.check(v.a[0] == 'none', 'variable', 'a variable without a buffer size has no value' if v.a[0] == 'none' else 'a variable without a buffer size is given one', x.loc, repr(v))
            else: c.unknown('variable', 'VAR_SIZE: %r' % (v,), x.loc)
    for name, fv in sorted(F.items(), key=lambda z: z[1]):
        for n in {'FLOAT': (4, 8), 'BLOB': (0, 1, 8)}.get(name, (1, 2, 4, 8)):
            r = c.run(fn, cfg='pv', oracle=oracle_for(E, fn, K['VAR_VALUE'], 1, K['VAR_REFERENCE'], {at(T): fv, at(Z): n}.get), model=modeller(E), ts0=())
            what = 'the value of a variable of format %s and size %d' % (name, n)
            if not handled(c, 'variable', what, r): continue
            for x in r.returns():
                v = result(E, fn, r, x)
                if name in ('UNSIGNED', 'POINTER'): number(c, 'variable', what, v, 'unsigned long', at(V), x, 8 * n)
                elif name == 'SIGNED': number(c, 'variable', what, v, 'long', at(V), x, 8 * n)
                elif name == 'FLOAT':
                    w = at(V)
                    if n == 4: w = mk('mem0', w.a[0], w.a[1], 4, 0, w=32); 
                    u = v
                    if n == 4 and v.op == 'pv' and len(v.a) > 1 and v.a[1].op == 'trunc' and v.a[1].w == 32: u = mk('pv', v.a[0], strip_float(v.a[1]))
                    number(c, 'variable', what, u, 'float' if n == 4 else 'double', w, x)
                elif v.op == 'pv': c.check(v.a[0] == 'none', 'variable', what + (' is missing' if v.a[0] == 'none' else ' is given a number'), x.loc, repr(v))
                else: c.unknown('variable', what + ': %r' % (v,), x.loc)
def strip_float(t):
    u = t.a[0]
    return mk('mem0', u.a[0], u.a[1], 4, u.a[3], w=32) if u.op == 'mem0' else t
def entry(c, E):
    P = E.P
    t, p, o = E.place(E.sat)
    pf = field(P, 'EvaluatePredicate', 'getPredicate')
    r = c.run('e_EvaluatePredicate_eval', cfg='pv')
    for ev in r.events:
        if ev.name == E.sat:
            c.check(ev.args[p] is ptr(A[0], pf.off) and (t is None or ev.args[t] is A[0]), 'entry', 'evaluating evaluates the predicate over its variables', ev.loc, repr(ev.args))
            for x in r.returns():
                v = r.e.known(x.state, x.value)
                if v is ev.res: c.ok('entry', 1, 'its result is returned')
                elif isc(v) or v is notb(ev.res): c.bad('entry', 'the result of the evaluation is not returned', x.loc, repr(v))
                else: c.unknown('entry', 'result %r' % (v,), x.loc)
    if not any(ev.name == E.sat for ev in r.events): c.unknown('entry', 'the evaluator is not called')

# ---------------------------------------------------------------- operators on values
class PV:
    """representation of a value: located by comparing what the constructors store"""
    def __init__(self, c):
        P = c.prog()
        ex = {}
        for k in ('default', 'int', 'float'):
            r = c.run('e_PV_' + k)
            xs = r.returns()
            if len(xs) != 1: raise AnalysisError('constructor of values (%s) not understood' % k)
            cells = xs[0].state.mem.get(A[0], {})
            ex[k] = {o: v for o, v in cells.items() if isinstance(o, int)}
        self.ptr = self.valid = self.kind = None
        for o, (n, v) in ex['int'].items():
            d = ex['default'].get(o); f = ex['float'].get(o)
            if v.op in ('new', 'heap') and f and f[1].op in ('new', 'heap'): self.ptr = o
            elif isc(v) and f and isc(f[1]) and d and isc(d[1]):
                if cv(v) == cv(f[1]) == 1 and cv(d[1]) == 0: self.valid = (o, n)
                elif cv(v) != cv(f[1]): self.kind = (o, n); self.I = cv(v); self.F = cv(f[1])
        if None in (self.ptr, self.valid, self.kind): raise AnalysisError('the representation of values was not understood')
    def pins(self, base, k):
        """k: '-' missing, 'I', 'F'"""
        m = {}
        m[(base, self.valid[0], self.valid[1])] = int(k != '-')
        if k != '-': m[(base, self.kind[0], self.kind[1])] = self.I if k == 'I' else self.F
        return m
    def num(self, base): return mk('cont0', mk('mem0', base, self.ptr, 8, 0, w=64), 0)
    def at(self, e, s, base):
        """(valid, kind, content) of the value at base"""
        v = e.known(s, e.load(s, ptr(base, self.valid[0]), self.valid[1], 8 * self.valid[1]))
        k = e.known(s, e.load(s, ptr(base, self.kind[0]), self.kind[1], 8 * self.kind[1]))
        p = e.load(s, ptr(base, self.ptr), 8, 64)
        return v, k, p
def pin(m):
    def oracle(t):
        if t.op == 'mem0' and t.a[3] == 0: return m.get((t.a[0], t.a[1], t.a[2]))
    return oracle
def zero_model(P):
    """tests of a number against zero fork"""
    def model(e, s, i, name, args, rt):
        sg = lib.sig(P, name)
        if not sg.cls.startswith('boost::multiprecision'): return None
        rs = lib.default(e, s.copy(), i, name, args, rt)
        v = rs[0][2] if rs and rs[0][0] == 'ret' else None
        if v is None: return None
        u = v; neg = False
        while u.op in ('zext', 'not'):
            if u.op == 'not': neg = not neg
            u = u.a[0]
        if u.op == 'ncmp' and u.a[0] == '==' and any(isz(y) for y in u.a[2:]):
            x = [y for y in u.a[2:] if not isz(y)]
            if len(x) != 1: return None
            for (k, z) in s.ts:
                if k is x[0]: return [('ret', s, C(int(z) ^ int(neg), v.w))]
            out = []
            for z in (0, 1):
                s2 = s.copy(); s2.ts = s.ts + ((x[0], z),)
                out.append(('ret', s2, C(z ^ int(neg), v.w)))
            return out
        return None
    return model
def isz(t): return t.op == 'num' and isc(t.a[1]) and cv(t.a[1]) == 0
def values(c):
    P = c.prog()
    try: R = PV(c)
    except AnalysisError as ex: c.unknown('value-ops', str(ex)); return
    fl = lambda k, t: t if k == 'F' else mk('conv', 'F', t)
    for fn, o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '==')):
        for ka in '-IF':
            for kb in '-IF':
                m = {}; m.update(R.pins(A[0], ka)); m.update(R.pins(A[1], kb))
                r = c.run('e_PV_' + fn, oracle=pin(m))
                a, b = R.num(A[0]), R.num(A[1])
                what = 'comparison %s of %s and %s' % (o, NAME[ka], NAME[kb])
                for x in r.returns():
                    v = r.e.known(x.state, x.value)
                    while v.op in ('zext', 'trunc') and v.a[0].w == 1: v = v.a[0]
                    if '-' in (ka, kb):
                        if isc(v): c.check(cv(v) == 0, 'value-ops', what + (' is false' if cv(v) == 0 else ' is true'), valloc(r, x))
                        else: c.bad('value-ops', what + ' depends on a value that is not there', valloc(r, x), repr(v)) if any(y in (a, b) for y in subterms(v)) else c.unknown('value-ops', what + ': %r' % (v,), x.loc)
                        continue
                    K = 'I' if ka == kb == 'I' else 'F'
                    want = lib.ncmp(o, K, a, b) if K == 'I' else lib.ncmp(o, 'F', fl(ka, a), fl(kb, b))
                    vjudge(c, what, v, want, K, a, b, r, x)
    for fn, o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        for ka in '-IF':
            for kb in '-IF':
                m = {}; m.update(R.pins(A[1], ka)); m.update(R.pins(A[2], kb))
                r = c.run('e_PV_' + fn, oracle=pin(m), model=zero_model(P), ts0=())
                a, b = R.num(A[1]), R.num(A[2])
                what = '%s %s %s' % (NAME[ka], o, NAME[kb])
                for x in r.returns():
                    v, k, p = R.at(r.e, x.state, A[0])
                    if not isc(v): c.unknown('value-ops', what + ': valid? %r' % (v,), x.loc); continue
                    z = [q for y, q in x.state.ts if y is b or y is fl(kb, b)]
                    if '-' in (ka, kb) or o == '/' and z == [1]:
                        c.check(cv(v) == 0, 'value-ops', what + (' has no value' if cv(v) == 0 else ' is given a value'), valloc(r, x)); continue
                    if cv(v) == 0:
                        if o == '/' and not z and x.state.ts: c.bad('value-ops', what + ' has no value although the divisor may not be zero', valloc(r, x))
                        elif o == '/' and not z: c.unknown('value-ops', what + ': no value', x.loc)
                        else: c.bad('value-ops', what + ' has no value', valloc(r, x))
                        continue
                    K = 'I' if ka == kb == 'I' and o != '/' else 'F'
                    if not isc(k): c.unknown('value-ops', what + ': kind %r' % (k,), x.loc); continue
                    if cv(k) != (R.I if K == 'I' else R.F): c.bad('value-ops', what + ' is computed as %s' % ('an integer' if K == 'F' else 'a float'), valloc(r, x)); continue
                    if o == '/' and not z:
                        if any('multiprecision' in ev.name and lib.sig(P, ev.name).name not in ('number', '~number', 'operator/', 'convert_to', 'operator==', 'operator!=') for ev in r.events): c.unknown('value-ops', what + ': test for zero', x.loc)
                        else: c.bad('value-ops', what + ' is carried out without a test whether the divisor is zero', valloc(r, x)); continue
                    t = lib.content(r.e, x.state, p)
                    want = mk('nop', o, K, *( (a, b) if K == 'I' else (fl(ka, a), fl(kb, b))))
                    vjudge(c, what, t, want, K, a, b, r, x)
NAME = {'-': 'a missing value', 'I': 'an integer', 'F': 'a float'}
def valloc(r, x):
    for ev in r.events:
        if 'multiprecision' in ev.name and 'cffi-interface' in ev.loc: return ev.loc
    for ev in r.events:
        if 'cffi-interface' in ev.loc: return ev.loc
    return x.loc
def vjudge(c, what, v, want, K, a, b, r, x):
    if v is want: c.ok('value-ops', 1, what); return
    if want.op == 'nop' and want.a[0] in '+*' and v.op == 'nop' and v.a[:2] == want.a[:2] and v.a[2:] == (want.a[3], want.a[2]): c.ok('value-ops', 1, what); return
    sub = list(subterms(v))
    if any(y.op in ('phi', 'pcall', 'evv', 'ev', 'hv') for y in sub) or any(y.op == 'call' and y.a[0] != 'convert_to' for y in sub): c.unknown('value-ops', what + ': %r' % (v,), x.loc); return
    if any(y.op == 'call' for y in sub): c.bad('value-ops', what + ' converts an operand to a built-in type', valloc(r, x), repr(v)); return
    if v.op in ('ncmp', 'nop', 'not', 'c', 'cont0', 'conv', 'cuninit', 'num'): c.bad('value-ops', what + ' is computed differently', valloc(r, x), '%r instead of %r' % (v, want)); return
    c.unknown('value-ops', what + ': %r' % (v,), x.loc)

# ---------------------------------------------------------------- printing
def printer(c, K):
    P = c.prog()
    fn = None
    for n, f in P.fn.items():
        sg = lib.sig(P, n)
        if f.kind == 'recursive' and any(lib.base_type(p) == 'Predicate' for p in sg.params) and 'ostream' in sg.full: fn = n
    if fn is None: c.unknown('printed', 'no recursive printer'); return
    sg = lib.sig(P, fn)
    pi = [j for j, p in enumerate(sg.params) if lib.base_type(p) == 'Predicate'][0]
    kind, data, ch = [field(P, 'Predicate', g) for g in ('getKind', 'getData', 'getChildren')]
    sz = P.records['Predicate']['s']
    beg = lib.vbeg(ch.initial(A[pi]))
    def text(t): 
        t = split(t)[0]
        if t.op == 'glob':
            G = P.globals.get(t.a[0]) or {}
            if 'str' in G: return G['str'].split('\0')[0]
        return None
    for name, kv in sorted(K.items(), key=lambda x: x[1]):
        n = 2 if name in CMP or name in ARITH or name in ('AND', 'OR', 'DISTINCT_VARS') else 1 if name in ('NOT', 'VAR_SIZE', 'VAR_VALUE') else 0
        def oracle(t):
            if t is kind.initial(A[pi]): return kv
            if t.op == 'vsize' and t.a[0] is ch.initial(A[pi]): return n
        def model(e, s, i, nm, args, rt):
            if nm == fn:
                s.ts = s.ts + (args[pi],) if len(s.ts) < 6 else s.ts
                return [('ret', s, args[0] if 't' in i else None), ('throw', s.copy(), 'lib')]
        r = c.run(fn, oracle=oracle, model=model, ts0=(), unroll=8)
        if not r.returns(): c.bad('printed', 'predicates of kind %s are not printed' % name, where(r)); continue
        texts = set(); nums = []
        for ev in r.events:
            for a in ev.args:
                t = text(a)
                if t is not None and not ev.name.startswith('__assert'): texts.add(t.strip('( )'))
            s2 = lib.sig(P, ev.name)
            if s2.cls in ('std::ostream', 'std::basic_ostream') and s2.name in ('operator<<', '_M_insert') and s2.params and s2.params[0] in CLS: nums.append((s2.params[0], ev.args[-1], ev.loc))
        if name in TEXT:
            others = (set(TEXT.values()) - {TEXT[name]}) & texts
            if TEXT[name] in texts and not others: c.ok('printed', 1, '%s is printed as %s' % (name, TEXT[name]))
            elif others: c.bad('printed', '%s is printed as %s' % (name, sorted(others)[0]), where(r) if 0 else evloc(r, text, others))
            else: c.unknown('printed', '%s: %s' % (name, sorted(texts)))
            for x in r.returns():
                want = tuple(ptr(beg, k * sz) for k in range(n))
                if x.state.ts == want: c.ok('printed', 1, 'operands of %s in order' % name)
                elif any(split(y)[0] is not beg for y in x.state.ts): c.unknown('printed', 'operands of %s' % name)
                else: c.bad('printed', 'the operands of %s are not printed in order' % name, x.loc, repr(x.state.ts))
        elif name in ('VAR_REFERENCE', 'SIGNED_VALUE', 'UNSIGNED_VALUE', 'FLOAT_VALUE'):
            ty = {'VAR_REFERENCE': 'u', 'SIGNED_VALUE': 's', 'UNSIGNED_VALUE': 'u', 'FLOAT_VALUE': 'f'}[name]
            hit = [q for q in nums if any(y is data.initial(A[pi]) or y.op == 'mem0' and y.a[0] is A[pi] and y.a[1] == data.off for y in subterms(q[1]))]
            if not hit: c.unknown('printed', 'the number of %s' % name)
            elif CLS[hit[0][0]] != ty: c.bad('printed', 'the number of %s is printed as %s' % (name, hit[0][0]), hit[0][2])
            elif hit[0][1] is not data.initial(A[pi]): c.bad('printed', 'the number of %s is printed truncated' % name, hit[0][2], repr(hit[0][1])) if hit[0][1].op in ('trunc', 'mem0') else c.unknown('printed', name)
            else: c.ok('printed', 1, 'the number of %s' % name)
def evloc(r, text, others):
    for ev in r.events:
        if any((text(a) or '').strip('( )') in others for a in ev.args if text(a)): return ev.loc
    return '?'
