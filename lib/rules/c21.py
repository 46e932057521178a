"""Ownership typestate of the numbers behind predicate values: every constructor, copy, move, assignment, destructor, operator and the
evaluator itself are analysed for every combination of missing, integer and float values (and of operand results), on normal and
exceptional paths. Numbers allocated live in the analysis state with the kind they were built as; at a return exactly the number the result
points to is alive, at an exception none, numbers of operands are never released, the destructor releases its number exactly once as its
kind, and no operation touches the number of a missing value or reads it as the other kind."""
from rules.common import *
from rules.c08 import PV, Ev, pin, NAME, valloc, oracle_for, child
import rules.c08 as c08

RULES = {'owned-once': 30, 'released': 2, 'read-as-kind': 40, 'missing-owns-nothing': 3, 'temporaries': 9}

# ts: (live numbers ((term, kind or '?'),...), released locations, destroyed)
def cls_kind(sg):
    if sg.cls != 'boost::multiprecision::number': return None
    return 'F' if 'cpp_dec_float' in ''.join(sg.targs) else 'I'
class Own:
    def __init__(self, c, R, P, bases, what, release=None, E=None, kinds='-IF'):
        self.c = c; self.R = R; self.P = P; self.bases = bases; self.what = what; self.release = release; self.B = []; self.U = []; self.E = E; self.reads = 0; self.kinds = kinds
    def bad(self, e, rule, what, i):
        if e.final: self.B.append((rule, '%s: %s' % (self.what, what), locstr(i)))
    def unk(self, e, rule, what, i):
        if e.final: self.U.append((rule, '%s: %s' % (self.what, what), locstr(i)))
    def operand(self, p):
        """kind of the operand that p is the number of"""
        for base, k in self.bases:
            if p is mk('mem0', base, self.R.ptr, 8, 0, w=64): return base, k
        if p.op == 'opnum': return p, p.a[1]
        return None
    def model(self, e, s, i, name, args, rt):
        R = self.R
        live, rel, des = s.ts
        if name in ('_Znwm', '_Znam', 'malloc'):
            if name == '_Znam': self.unk(e, 'owned-once', 'array allocation', i)
            t = mk('new' if name != 'malloc' else 'heap', rt)
            s2 = s.copy()
            s.mem.pop(t, None); e.heap[t] = args[0]
            if any(x is t for x, k in live): self.unk(e, 'owned-once', 'allocated in a loop', i)
            s.ts = (live + ((t, '?'),), rel, des)
            return [('ret', s, t)] + ([('throw', s2, 'lib')] if name != 'malloc' else [])
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            v = e.known(s, args[0])
            if isc(v): return [('ret', s, None)]
            hit = [x for x in live if x[0] is v]
            if hit:
                if e.final and hit[0][1] == 'I' and v not in des: self.bad(e, 'released', 'an integer is released without being destroyed', i)
                s.ts = (tuple(x for x in live if x[0] is not v), rel, des)
                return [('ret', s, None)]
            if v.op in ('new', 'heap'): self.bad(e, 'owned-once', 'a number is released twice', i); return [('ret', s, None)]
            o = self.operand(v)
            if o:
                base, k = o
                if v in rel: self.bad(e, 'released', 'the number is released twice', i)
                if k == '-': self.bad(e, 'missing-owns-nothing', 'the number of a missing value is released', i)
                elif self.release is not base and v.op != 'opnum': self.bad(e, 'owned-once', 'the number of an operand is released', i)
                elif k == 'I' and v not in des: self.bad(e, 'released', 'an integer is released as something else', i)
                elif k == 'F' and v in des: self.bad(e, 'released', 'a float is released as an integer', i)
                s.ts = (live, rel + (v,), des)
                return [('ret', s, None)]
            self.unk(e, 'owned-once', 'released: %r' % (v,), i)
            return [('ret', s, None)]
        sg = lib.sig(self.P, name)
        K = cls_kind(sg)
        built = e.known(s, args[0]) if K and sg.name == 'number' else None
        if K and sg.name == '~number':
            t = e.known(s, args[0])
            if self.operand(t) or any(x is t for x, k in live): s.ts = (live, rel, des + (t,))
            if any(x is t and k not in ('?', K) for x, k in live): self.bad(e, 'released', 'a number is destroyed as the other kind', i)
        if 'multiprecision' in name or K:
            F = 'cpp_dec_float' in sg.cls + ''.join(sg.targs) if K else None
            for j, a in enumerate(args):
                a = e.known(s, a)
                o = self.operand(a)
                if o is None:
                    sh = len(args) - len(sg.params)
                    if isc(a) and cv(a) == 0 and (sg.method if j < sh else '&' in sg.params[j - sh] and 'number<' in sg.params[j - sh]): self.bad(e, 'missing-owns-nothing', 'a number that is not there is used', i)
                    continue
                base, k = o
                self.reads += 1
                if k == '-': self.bad(e, 'missing-owns-nothing', 'the number of a missing value is read', i); continue
                # which kind does the callee take this argument as?
                t = None
                sh = len(args) - len(sg.params)
                if j < sh: t = K if sg.method else None
                else:
                    pt = lib.base_type(sg.params[j - sh])
                    if 'number<' in pt: t = 'F' if 'cpp_dec_float' in pt else 'I'
                if t and t != k: self.bad(e, 'read-as-kind', 'the number of %s is read as %s' % (NAME[k], NAME[t]), i)
                elif t and e.final: self.c.ok('read-as-kind', 1, '%s: read as %s at %s' % (self.what, NAME[t], locstr(i)))
        if self.E and name == self.E.val:
            # result of an operand: any kind
            out = [('throw', s.copy(), 'lib')]
            for k in self.kinds:
                s2 = s.copy(); p = args[0]
                n = mk('opnum', i['i'], k)
                vo, vn = R.valid; ko, kn = R.kind
                e.store(s2, ptr(p, vo), vn, C(int(k != '-'), 8 * vn))
                e.store(s2, ptr(p, ko), kn, C(R.F if k == 'F' else R.I, 8 * kn))
                e.store(s2, ptr(p, R.ptr), 8, C(0) if k == '-' else n)
                if k != '-': s2.ts = (live + ((n, k),), rel, des); e.assume(s2, icmp('eq', n, C(0)), 0)
                out.append(('ret', s2, None))
            return out
        if self.E and name == self.E.sat:
            return [('ret', s, rt), ('throw', s.copy(), 'lib')]
        if built is not None:
            out = lib.default(e, s, i, name, args, rt)
            for q in out:
                if q[0] == 'ret': q[1].ts = (tuple((x, K if x is built else k) for x, k in live), rel, des)
            return out
        return None
    def finish(self):
        for rule, w, loc in self.B: self.c.bad(rule, w, loc)
        for rule, w, loc in self.U: self.c.unknown(rule, w, loc)

def result(c, o, R, r, x, base, rule='owned-once'):
    """at a normal return exactly the number the result points to is alive"""
    live, rel, des = x.state.ts
    v, k, p = R.at(r.e, x.state, base)
    p = r.e.known(x.state, p)
    loc = valloc(r, x)
    if not isc(v): c.unknown(rule, o.what + ': valid? %r' % (v,), x.loc); return None
    mine = [y for y in live if y[0] is p]; others = [y for y in live if y[0] is not p]
    if others: c.bad(rule, o.what + ': a number is never released', loc, repr(others)); return None
    if cv(v) == 0:
        if mine: c.bad('missing-owns-nothing', o.what + ': a missing value owns a number', loc)
        return 'missing', p
    if not mine:
        if o.operand(p): c.bad(rule, o.what + ': the result shares its number with an operand', loc)
        elif isc(p): c.bad(rule, o.what + ': the result has no number', loc)
        elif p.op in ('uninit', 'mem0'): c.bad(rule, o.what + ': the result points to something that is not its number', loc, repr(p))
        elif p.op in ('new', 'heap'): c.bad(rule, o.what + ': the number of the result was already released', loc)
        else: c.unknown(rule, o.what + ': number %r' % (p,), x.loc)
        return None
    if not isc(k): c.unknown(rule, o.what + ': kind %r' % (k,), x.loc); return None
    kk = 'F' if cv(k) == R.F else 'I'
    if mine[0][1] != '?' and mine[0][1] != kk: c.bad('read-as-kind', o.what + ': the number of the result is not of the kind it is marked as', loc); return None
    c.ok(rule, 1, o.what)
    return kk, p
def thrown(c, o, r, rule='owned-once'):
    for x in r.exits:
        if x.kind == 'throw':
            live = [y for y in x.state.ts[0]]
            if live: c.bad(rule, o.what + ': a number is never released when an exception is thrown', x.loc, repr(live))
            else: c.ok(rule, 1, o.what + ' (exception)')

def check(c):
    P = c.prog()
    try: R = PV(c)
    except AnalysisError as ex: c.unknown('owned-once', str(ex)); return
    def go(fn, bases, what, res=None, release=None, **kw):
        m = {}
        for b, k in bases:
            m.update(R.pins(b, k))
            if k == '-' and null_missing: m[(b, R.ptr, 8)] = 0
        o = Own(c, R, P, bases, what, release)
        r = c.run(fn, oracle=pin(m), model=o.model, ts0=((), (), ()), **kw)
        o.finish()
        thrown(c, o, r)
        return o, r
    # a missing value has no number: what the default constructor leaves, what every other operation has to keep when it matters
    null_missing = False
    r = c.run('e_PV_default', ts0=((), (), ()), model=Own(c, R, P, [], 'construction').model)
    if r.returns(): null_missing = all(isc(p) and cv(p) == 0 for p in [r.e.known(x.state, R.at(r.e, x.state, A[0])[2]) for x in r.returns()])
    # the destructor
    dtor_ignores = True
    for k in '-IF':
        what = 'destruction of %s' % NAME[k]
        B = mk('mem0', A[0], R.ptr, 8, 0, w=64)
        o = Own(c, R, P, [(A[0], k)], what, A[0])
        r = c.run('e_PV_dtor', oracle=pin(R.pins(A[0], k)), model=o.model, ts0=((), (), ()))
        if k == '-':
            dtor_ignores = not any(rule == 'missing-owns-nothing' for rule, w, l in o.B)
            o.B = [b for b in o.B if b[0] != 'missing-owns-nothing']
        o.finish()
        for x in r.returns():
            n = x.state.ts[1].count(B)
            if k == '-':
                if n == 0: c.ok('missing-owns-nothing', 1, what)
                continue
            # a null test of the number is fine: the number is there
            pz = x.state.facts.get(icmp('eq', B, C(0)))
            if n == 0 and pz is not None and cv(pz) == 1: continue
            c.check(n == 1, 'released', what + (' releases its number once' if n == 1 else ' does not release its number'), valloc(r, x))
    # construction
    for fn, kind in (('default', 'missing'), ('int', 'I'), ('float', 'F'), ('u64', 'I'), ('s64', 'I'), ('dbl', 'F'), ('flt', 'F')):
        o, r = go('e_PV_' + fn, [], 'construction (%s)' % fn)
        for x in r.returns():
            q = result(c, o, R, r, x, A[0])
            if q: missing_ptr(c, R, r, x, o, q, dtor_ignores, kind)
    for fn in ('copy', 'move'):
        for k in '-IF':
            o, r = go('e_PV_' + fn, [(A[1], k)], '%s of %s' % (fn, NAME[k]))
            for x in r.returns():
                p = R.at(r.e, x.state, A[0])[2]
                if fn == 'move' and k != '-' and p is mk('mem0', A[1], R.ptr, 8, 0, w=64):
                    v2, k2, p2 = R.at(r.e, x.state, A[1])
                    p2 = r.e.known(x.state, p2)
                    c.check(isc(p2) and cv(p2) == 0 or dtor_ignores and isc(v2) and cv(v2) == 0, 'owned-once', o.what + (' takes over its number' if isc(p2) else ': the number is owned twice'), valloc(r, x)); continue
                q = result(c, o, R, r, x, A[0])
                if not q: continue
                want = 'missing' if k == '-' else k
                if q[0] != want and fn == 'copy': c.bad('owned-once', o.what + ': the copy is of another kind', valloc(r, x))
                if q[0] == 'missing': missing_ptr(c, R, r, x, o, q, dtor_ignores, None)
                elif q[0] == k:
                    t = lib.content(r.e, x.state, q[1])
                    judge(c, r.e, t, R.num(A[1]), 'owned-once', o.what + ': the copy has the number of the original', valloc(r, x))
    for fn, g in (('assign', 'k_PV_assignable'), ('massign', 'k_PV_massignable')):
        t = P.const(g) if hasattr(P, 'const') else c.run(g).returns()[0].value
        if isc(t) and cv(t) == 0: c.ok('owned-once', 1, 'values cannot be assigned (%s)' % fn); continue
        for ka in '-IF':
            for kb in '-IF':
                o, r = go('e_PV_' + fn, [(A[0], ka), (A[1], kb)], 'assignment of %s to %s' % (NAME[kb], NAME[ka]), release=A[0])
                for x in r.returns():
                    old = mk('mem0', A[0], R.ptr, 8, 0, w=64); new = mk('mem0', A[1], R.ptr, 8, 0, w=64)
                    # the numbers of valid values are there
                    if any(kk != '-' and x.state.facts.get(icmp('eq', q, C(0))) is TRUE for q, kk in ((old, ka), (new, kb))): continue
                    v, k, p = R.at(r.e, x.state, A[0]); p = r.e.known(x.state, p)
                    v2, k2, p2 = R.at(r.e, x.state, A[1]); p2 = r.e.known(x.state, p2)
                    if p is new and kb != '-' and p2 is new: c.bad('owned-once', o.what + ': the number is owned twice', valloc(r, x)); continue
                    if ka != '-' and old not in x.state.ts[1] and p is not old and p2 is not old: c.bad('owned-once', o.what + ': the previous number is never released', valloc(r, x)); continue
                    if ka != '-' and old in x.state.ts[1] and p is old: c.bad('owned-once', o.what + ': a released number is kept', valloc(r, x)); continue
                    c.ok('owned-once', 1, o.what)
    # operators
    for fn in ('lt', 'le', 'gt', 'ge', 'eq', 'add', 'sub', 'mul', 'div'):
        n = 0 if fn in ('lt', 'le', 'gt', 'ge', 'eq') else 1
        for ka in '-IF':
            for kb in '-IF':
                o, r = go('e_PV_' + fn, [(A[n], ka), (A[n + 1], kb)], 'operation %s on %s and %s' % (fn, NAME[ka], NAME[kb]))
                for x in r.returns():
                    if n == 0:
                        c.check(not x.state.ts[0], 'owned-once', o.what + ('' if not x.state.ts[0] else ': a number is never released'), valloc(r, x))
                    else:
                        q = result(c, o, R, r, x, A[0])
                        if q: missing_ptr(c, R, r, x, o, q, dtor_ignores, None)
    evaluator(c, R)
def missing_ptr(c, R, r, x, o, q, dtor_ignores, kind):
    if kind and q[0] != kind: c.bad('owned-once', o.what + ': the value is %s' % q[0], valloc(r, x)); return
    if q[0] == 'missing' and not dtor_ignores:
        p = q[1]
        ok = isc(p) and cv(p) == 0
        if ok or p.op in ('uninit', 'mem0', 'new') or isc(p): c.check(ok, 'missing-owns-nothing', o.what + (': nothing is owned' if ok else ': the missing value releases memory it does not own when it is destroyed'), valloc(r, x), repr(p))
        else: c.unknown('missing-owns-nothing', o.what + ': %r' % (p,), x.loc)

def evaluator(c, R):
    P = c.prog()
    class E2(Ev):
        def __init__(self): pass
    E = Ev.__new__(Ev); E.P = P; E.sat = E.val = None
    for n, f in P.fn.items():
        sg = lib.sig(P, n)
        if f.kind != 'recursive' or not any(lib.base_type(p) == 'Predicate' for p in sg.params) or 'ostream' in sg.full: continue
        if f.ret in ('i1', 1): E.sat = n
        elif any('sret' in str(a) for a in f.args[:1]): E.val = n
    if not E.sat or not E.val: c.unknown('temporaries', 'the evaluator was not found'); return
    K = P.enum('predicate_kind')
    def one(fn, name, n, more=None, kinds='-IF'):
        o = Own(c, R, P, [], 'evaluation of %s' % name, None, E, kinds)
        r = c.run(fn, oracle=oracle_for(E, fn, K[name], n, K['VAR_REFERENCE'], more), model=o.model, ts0=((), (), ()))
        o.finish()
        thrown(c, o, r, 'temporaries')
        for x in r.returns():
            if fn == E.sat: c.check(not x.state.ts[0], 'temporaries', o.what + ('' if not x.state.ts[0] else ': a number is never released'), valloc(r, x))
            else: result(c, o, R, r, x, A[0], 'temporaries')
    for name in c08.CMP: one(E.sat, name, 2)
    for name in c08.ARITH: one(E.val, name, 2)
    for name in ('SIGNED_VALUE', 'UNSIGNED_VALUE', 'FLOAT_VALUE'): one(E.val, name, 0)
    F = P.enum('type_format')
    T, Z, H = [field(P, 'TraceVarInfo', g) for g in ('getTypeFormat', 'getSize', 'hasBufferSize')]
    base = mk('fwget', mk('cont0', c08.variable(E, E.val, 0), 0))
    def at(f): b, o = split(ptr(base, f.off)); return mk('mem0', b, o, f.sz, 0, w=8 * f.sz)
    for h in (0, 1): one(E.val, 'VAR_SIZE', 1, {at(H): h}.get)
    for fv in F.values():
        for n in (4, 8): one(E.val, 'VAR_VALUE', 1, {at(T): fv, at(Z): n}.get)
