"""Definite assignment: every constructor of the trace and query model (default, from parts, copy, from a stream with every read
forking into success and failure) is analysed, and at each normal return the storage behind each public accessor must hold a value that
does not come from memory never written. Copies must hold the original's fields, construction from parts the parts, a point without a
statement entry statement id 0, and the predicate built from a C predicate a defined value for every kind."""
from rules.common import *
import stream

RULES = {'initialized': 60, 'copy-equal': 20, 'parts-kept': 20, 'statement-default': 1, 'c-conversion': 10}
CLASSES = ['TypeDescription', 'TraceBufferSize', 'TraceVarInfo', 'TracePointData', 'TracePoint', 'Trace', 'TraceDB', 'Predicate', 'FreeVariable']
HASHED = ['Predicate', 'FreeVariable', 'EvaluatePredicate']
READ = {'TypeDescription': ['read', 'readn'], 'TraceBufferSize': ['read'], 'TraceVarInfo': ['read', 'read3'], 'TracePoint': ['read', 'read3', 'read4'], 'Trace': ['read']}
MAKE = {'TypeDescription': {'make': {'nameindex': 1, 'typeformat': 2, 'size': 3}}, 'TraceBufferSize': {'make': {'address': 1, 'size': 2}},
        'TraceVarInfo': {'make': {'value': ('mem', 1), 'nameindex': 2, 'typeindex': 3, 'typeformat': 4, 'size': 5, 'buffersize': 6, 'has-buffer-size': 7}},
        'TracePointData': {'make': {'buffersizes': 1, 'vars': 2, 'aux': 3}}, 'TracePoint': {'make': {'counter': 1, 'statement': 2}, 'maked': {'counter': 1, 'statement': 2}},
        'Trace': {'make': {'names': 1, 'types': 2, 'points': 3}}, 'TraceDB': {'make': {'traces': 1}},
        'Predicate': {'make': {'kind': 1, 'data': ('mem', 2), 'children': 3}}, 'FreeVariable': {'make': {'allowedtypes': 1}}}

def loc_of(P, fn):
    for b in P.get(fn).blocks:
        for i in b:
            l = locstr(i)
            if 'cffi-interface' in l: return l
    return '?'
def gets(P, cls):
    fs = fields(P, cls)
    if cls in HASHED: fs = fs + [field(P, cls, 'getHash')]
    return fs
def undefined(e, s, f, base):
    v = f.at(e, s, base)
    return has_undef(e, v, root(base)), v

def check(c):
    P = c.prog('nomap')
    S = dict(cfg='nomap', model=lambda *a: stream.call(*a), ts0=('G',), init=lambda e, s: setattr(e, 'own', A[0]))
    for cls in CLASSES + ['EvaluatePredicate']:
        fs = gets(P, cls)
        kinds = [('default', {}), ('copy', {})] if cls != 'EvaluatePredicate' else [('make', {}), ('copy', {})]
        kinds += [(k, S) for k in READ.get(cls, ())] + [(k, {}) for k in MAKE.get(cls, {})]
        for k, kw in kinds:
            fn = 'e_%s_%s' % (cls, k)
            r = c.run(fn, **(kw or dict(cfg='nomap')))
            rets = r.returns()
            if not rets: raise AnalysisError('%s never returns' % fn)
            loc = loc_of(P, fn)
            for x in rets:
                for f in fs:
                    u, v = undefined(r.e, x.state, f, A[0])
                    c.check(u is None, 'initialized', '%s built by %s: %s is %s' % (cls, k, f.name, 'defined' if u is None else 'left undefined'), loc, '%r in %r' % (u, v))
            if k == 'copy':
                for x in rets:
                    for f in fs:
                        v = f.at(r.e, x.state, A[0]); o = f.at(r.e, x.state, A[1])
                        judge(c, r.e, v, o, 'copy-equal', '%s: the copy has the original\'s %s' % (cls, f.name), loc)
            if k in MAKE.get(cls, {}):
                for x in rets:
                    for f in fs:
                        a = MAKE[cls][k].get(f.name)
                        if a is None: continue
                        v = f.at(r.e, x.state, A[0])
                        if isinstance(a, tuple): w = r.e.load(x.state, A[a[1]], 8, 64)
                        elif f.kind == 'scalar': w = mk('arg', a, w=r.e.width(r.e.fn.args[a]['t']))
                        else: w = lib.content(r.e, x.state, A[a])
                        while v.op in ('zext', 'trunc') and v.w != w.w: v = v.a[0]
                        judge(c, r.e, v, w, 'parts-kept', '%s built from parts keeps its %s' % (cls, f.name), loc)
    point_parts(c, P)
    # a point without a statement entry
    T = P.enum('trace_entry_tag'); F = field(P, 'TracePoint', 'getStatement')
    def model(e, s, i, name, args, rt):
        def onread(s2, k, p, n): return (k, s2.ts[1] + 1 if s2.ts[1] < 2 else 2)
        return stream.call(e, s, i, name, args, rt, onread=onread)
    for fn in ('e_TracePoint_read', 'e_TracePoint_read3', 'e_TracePoint_read4'):
        def oracle(t):
            if t.op == 'in' and t.a[2] == 1: return T['END_ENTRY']
        r = c.run(fn, cfg='nomap', model=model, ts0=('G', 0), oracle=oracle)
        for x in r.returns():
            v = F.at(r.e, x.state, A[0])
            c.check(isc(v) and cv(v) == 0, 'statement-default', 'a point without a statement entry has statement id 0', loc_of(P, fn), repr(v))
    conversion(c)

def point_parts(c, P):
    """TracePoint(counter, statement, sizes, vars, aux) keeps the data"""
    for k in ('make', 'maked'):
        r = c.run('e_TracePoint_' + k, cfg='nomap')
        f = field(P, 'TracePoint', 'getData')
        for x in r.returns():
            v = f.at(r.e, x.state, A[0])
            want = [lib.content(r.e, x.state, A[n]) for n in (3, 4, 5)] if k == 'make' else None
            if v.op != 'fwmk': c.unknown('parts-kept', 'data of a point: %r' % (v,), loc_of(P, 'e_TracePoint_' + k)); continue
            args = list(v.a[1:])
            if k == 'maked':
                d = lib.value(r.e, x.state, A[3], 'TracePointData')
                c.check(args == [d] or args == [A[3]], 'parts-kept', 'a point built from data keeps the data', loc_of(P, 'e_TracePoint_' + k), repr(v))
            else:
                if len(args) == 1 and args[0].op == 'obj': args = list(args[0].a[1:])
                c.check(args == want, 'parts-kept', 'a point built from parts keeps buffer sizes, variables and auxiliary data', loc_of(P, 'e_TracePoint_' + k), repr(v))

def converter(P):
    """the function that turns a C predicate into a predicate"""
    for n, f in P.fn.items():
        sg = lib.sig(P, n)
        if f.kind == 'recursive' and sg.params and sg.params[0] == 'c_predicate const*' and f.args and len(f.args) >= 2: return n
    return None
def conversion(c):
    P = c.prog()
    n = converter(P)
    if n is None: raise AnalysisError('no function converts C predicates')
    K = P.enum('predicate_kind'); fs = gets(P, 'Predicate')
    rec = P.records.get('c_predicate')
    ko = [m for m in lib.fields(P, rec) if m.get('n') == 'kind'][0]
    for name, v in sorted(K.items(), key=lambda x: x[1]):
        def oracle(t):
            if t.op == 'mem0' and t.a[0] is A[1] and t.a[1] == ko['off'] and t.a[2] == ko['s']: return v
        r = c.run(n, oracle=oracle, model=lambda e, s, i, nm, args, rt: [('ret', s, None), ('throw', s.copy(), 'lib')] if nm == n and fill(e, s, args[0], rt) else None)
        for x in r.returns():
            for f in fs:
                u, w = undefined(r.e, x.state, f, A[0])
                c.check(u is None, 'c-conversion', 'the %s of a %s predicate converted from C is %s' % (f.name, name, 'defined' if u is None else 'undefined'), loc_of(P, n), '%r in %r' % (u, w))
def fill(e, s, p, rt):
    """the recursive call defines its result"""
    e.havoc(s, p, e.cur)
    return True
