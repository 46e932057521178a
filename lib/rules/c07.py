"""Field-wise hypotheses on the equality operators: for every class, operator== is evaluated by the dataflow engine with each
field assumed equal or different in turn; it must be true if all are equal and false if any one differs, comparing values at
the width of their type. The hash functions may depend only on what equality compares (term dependence), std::hash must be the
same function, and hashes cached in objects must be computed from the object's own final fields by every constructor."""
from rules.common import *

CLASSES = ['TypeDescription', 'TraceBufferSize', 'TraceVarInfo', 'TracePointData', 'TracePoint', 'Trace', 'TraceDB', 'Predicate', 'FreeVariable', 'EvaluatePredicate']
RULES = {'eq-all-equal': 10, 'eq-field-differs': 20, 'hash-depends': 10, 'std-hash': 10, 'cached-hash': 3}

def check(c):
    P = c.prog()
    for cls in CLASSES:
        fs = leaf_fields(P, cls)
        if cls == 'TraceVarInfo': parts = variants(P)
        else: parts = [{}]
        for part in parts: equality(c, P, cls, fs, part)
        hashing(c, P, cls, fs, parts)

def variants(P):
    F = P.enum('type_format')
    return [{'typeformat': F[n], 'size': s} for n in ('UNSIGNED', 'SIGNED', 'FLOAT', 'POINTER', 'BLOB') for s in
            ((1, 2, 4, 8) if n in ('UNSIGNED', 'SIGNED') else (4, 8) if n == 'FLOAT' else (8, 4) if n == 'POINTER' else (3, 4, 16))]

def tr(part, blob):
    return ' (format %d, size %d)' % (part['typeformat'], part['size']) if part else ''

def equality(c, P, cls, fs, part):
    fn = P.get('e_%s_eq' % cls); at = '%s:%s' % (cls + '::operator==', '')
    blob = part and part['typeformat'] == P.enum('type_format')['BLOB']
    tags = {f.name: f for f in fs if f.name in part}
    width = 8 * part['size'] if part and not blob and part['size'] in (1, 2, 4) else 64
    for diff in [None] + [f.name for f in fs]:
        foreign = []; partial = []; elem = []
        def oracle(t):
            for i in (0, 1):
                w = which(fs, A[i], t)
                if w and w[0].name in tags and w[2] == w[0].sz:
                    v = part[w[0].name]
                    if diff == w[0].name and i == 1: v = v + 1 if w[0].name == 'typeformat' and v < 4 else v - 1 if w[0].name == 'typeformat' else v * 2
                    return C(v, t.w)
            if t.op == 'icmp' and t.a[0] == 'eq': x, y = t.a[1], t.a[2]
            elif t.op in ('veq', 'fweq'): x, y = t.a
            elif t.op == 'call' and t.a[0] == 'memcmp': x, y = t.a[1], t.a[2]
            else: return None
            if not any(root(r.a[0]) in (A[0], A[1]) for r in reads(t)): return None
            rx, ry = reads(x), reads(y)
            if not (rx and ry):
                return None
            if all(rooted(r, A[1]) for r in rx): x, y, rx, ry = y, x, ry, rx
            same = subst(x, lambda z: A[1] if z is A[0] else None) is y
            if same:
                # a read inside of x which is no logical field
                ws = [which(fs, A[0], r) for r in rx if rooted(r, A[0])]
                ws0 = [w for w in ws if w]
                names = set(w[0].name for w in ws0)
                if t.op == 'call':
                    if not blob: return None
                    if any(w[0].name == 'value' for w in ws0):
                        n = t.a[3]
                        while n.op in ('zext', 'sext'): n = n.a[0]
                        full = isc(n) and cv(n) == part['size']
                        if not full: partial.append(('memcmp over %r bytes' % (n,), t)); return None
                        return 0 if diff != 'value' else C(1, 32)
                    return None
                if not names: foreign.append(t); return None
                if diff is None:
                    if blob and t.op == 'icmp' and x.op == 'mem0' and names == {'value'} and split(x.a[0])[0] is A[0]: return None   # address comparison decides nothing
                    return 1
                if diff not in names: return 1 if not (blob and names == {'value'} and t.op == 'icmp' and split(x.a[0])[0] is A[0]) else None
                # the differing field: does x determine it?
                if x.op in ('mem0', 'cont0') and which(fs, A[0], x):
                    w = ws0[0]
                    if w[0].kind != 'scalar': return 0
                    need = width // 8 if w[0].name == 'value' else w[0].sz
                    if blob and w[0].name == 'value': return 0
                    if w[1] == 0 and w[2] >= need: return 0
                    partial.append(('only %d of %d bytes' % (w[2], need), t)); return None
                if x.op == 'trunc' and x.a[0].op == 'mem0' and len(ws0) == 1:
                    need = width if ws0[0][0].name == 'value' else 8 * ws0[0][0].sz
                    if x.w >= need: return 0
                    partial.append(('only %d of %d bits' % (x.w, need), t)); return None
                if x.op in ('zext', 'sext'): return None
                elem.append(t); return None
            foreign.append(t); return None
        r = c.run('e_%s_eq' % cls, oracle=oracle)
        rets = r.returns()
        vals = [value_of(r.e, x) for x in rets]
        hyp = 'all fields equal' if diff is None else 'only %s differs' % diff
        want = 1 if diff is None else 0
        rule = 'eq-all-equal' if diff is None else 'eq-field-differs'
        loc = '%s:%s' % (fn.file, fn.line)
        what = '%s::operator== when %s%s' % (cls, hyp, tr(part, blob))
        loc = eqloc(r, P)
        if not rets: c.bad(rule, what + ': never returns', loc); continue
        if elem and not any(y.op in ('vbeg', 'idx', 'ev', 'phi') for t in elem for y in closure(r.e, t)):
            partial += [('only %r' % (t,), t) for t in elem]; elem = []
        for v in vals:
            if isc(v) and cv(v) == want: c.ok(rule, 1, what)
            elif isc(v) and elem and want == 0: c.unknown(rule, what + ': decided element by element', loc)
            elif isc(v): c.bad(rule, what + ': result is %s' % bool(cv(v)), loc, repr(foreign[:2]))
            elif partial: c.bad(rule, what + ': compares %s' % partial[0][0], loc, repr(partial[0][1]))
            elif foreign: c.bad(rule, what + ': compares unrelated parts', loc, repr(foreign[0]))
            elif elem and want == 0: c.unknown(rule, what + ': decided element by element', loc)
            elif blob and any(x.op == 'call' and x.a[0].startswith('str') for x in closure(r.e, v)): c.bad(rule, what + ': compares blobs as strings', loc, repr(v))
            elif width < 64 and diff is None: c.bad(rule, what + ': result depends on bits outside the value', loc, repr(v))
            elif blob and addr_only(r.e, v): c.bad(rule, what + ': compares addresses of blobs', loc, repr(v))
            else: c.unknown(rule, what + ': %r' % (v,), loc)

def addr_only(e, v):
    return not any(x.op in ('call', 'ev', 'phi') for x in closure(e, v))
def value_of(e, x):
    v = x.value
    if v is None: return None
    k = e.known(x.state, v)
    if k.op == 'trunc' : 
        k2 = e.known(x.state, k.a[0])
        if isc(k2): k = C(cv(k2), k.w)
    return k
def eqloc(r, P):
    for ev in r.events:
        if 'cffi-interface' in ev.loc: return ev.loc
    return '?'

def hashing(c, P, cls, fs, parts):
    for part in parts:
        blob = part and part['typeformat'] == P.enum('type_format')['BLOB']
        width = 8 * part['size'] if part and not blob and part['size'] in (1, 2, 4) else 64
        def oracle(t):
            w = which(fs, A[0], t)
            if w and w[0].name in part and w[2] == w[0].sz: return C(part[w[0].name], t.w)
        r = c.run('e_%s_hash' % cls, oracle=oracle); r2 = c.run('e_%s_stdhash' % cls, oracle=oracle)
        loc = eqloc(r, P)
        v = [x.value for x in r.returns()]; v2 = [x.value for x in r2.returns()]
        if not v: raise AnalysisError('hash_value(%s) does not return' % cls)
        if len(v) == 1 and len(v2) == 1:
            if v[0].op == 'phi' or v2[0].op == 'phi': c.unknown('std-hash', cls)
            else: c.check(v[0] is v2[0], 'std-hash', 'std::hash<%s> is not hash_value%s' % (cls, tr(part, blob)), loc, '%r vs %r' % (v[0], v2[0]))
        for x in v:
            cached = x.op == 'mem0' and x.a[0] is A[0] and which(fs, A[0], x) is None
            if cached:
                cached_hash(c, P, cls, fs, x.a[1], loc); continue
            bad = deps(r.e, x, fs, width, blob)
            what = 'hash_value(%s)%s' % (cls, tr(part, blob))
            c.check(not bad, 'hash-depends', what + (' depends on %s' % bad if bad else ''), loc, repr(x))

def deps(e, t, fs, width, blob):
    """what t depends on besides the logical fields (at their width)"""
    seen = set()
    def go(x, w):
        if (x, w) in seen: return None
        seen.add((x, w))
        if x.op == 'c' or x.op in ('vempty',): return None
        if x.op == 'phi':
            for y in e.phisrc.get(x, ()):
                b = go(y, w)
                if b: return b
            return None
        if x.op in ('mem0', 'cont0'):
            f = which(fs, A[0], x)
            if f is None:
                if root(x.a[0]) is A[0] and x.a[0].op in ('idx',): return go(x.a[0].a[0], 64) if False else None
                if x.op == 'mem0' and root(x.a[0]).op in ('vbeg', 'fwget', 'mem0', 'idx'): return go(root(x.a[0]), 64)
                if x.op == 'cont0' and root(x.a[0]).op in ('vbeg', 'fwget'): return go(root(x.a[0]), 64)
                return 'memory which equality does not compare (%r)' % (x,)
            if f[0].name == 'value':
                if blob: return 'the address of a blob'
                if 8 * min(f[2], w // 8 if w else 8) > width: return 'bits of the value outside of its type'
            return None
        if x.op == 'trunc': return go(x.a[0], min(w, x.w))
        if x.op == 'mix':
            for z in flat(x.a[2]):
                b = go(z, 64) if isinstance(z, Term) else None
                if b: return b
            return None
        if x.op == 'and' and isc(x.a[1]) and (cv(x.a[1]) + 1) & cv(x.a[1]) == 0: return go(x.a[0], min(w, cv(x.a[1]).bit_length()))
        if x.op in ('zext', 'sext') : return go(x.a[0], min(w, x.a[0].w))
        if x.op in ('hash_range', 'call') and blob and any(r.op == 'mem0' and (which(fs, A[0], r) or [None])[0] and which(fs, A[0], r)[0].name == 'value' for y in x.a if isinstance(y, Term) for r in reads(y)):
            return None
        if x.op in ('ev', 'uninit', 'cuninit', 'undef', 'glob', 'alloca', 'new', 'heap'): return 'something other than its fields (%r)' % (x,)
        if x.op == 'arg': return 'the address of the object' if x is A[0] else None
        for y in x.a:
            if isinstance(y, Term):
                b = go(y, w if x.op in ('and', 'or', 'xor', 'select') else 64)
                if b: return b
            elif isinstance(y, tuple):
                for z in flat(y):
                    if isinstance(z, Term):
                        b = go(z, 64)
                        if b: return b
        return None
    return go(t, 64)

def cached_hash(c, P, cls, fs, off, loc):
    tops = fields(P, cls)
    tmpl = None; ctors = [n for n in ('make', 'default', 'copy') if 'e_%s_%s' % (cls, n) in P.fn]
    for n in ctors:
        r = c.run('e_%s_%s' % (cls, n))
        for x in r.returns():
            e = r.e; v = e.load(x.state, ptr(A[0], off), 8, 64)
            vals = [(f, f.at(e, x.state, A[0])) for f in tops]
            what = 'the hash cached by %s of %s' % ({'make': 'the constructor', 'default': 'the default constructor', 'copy': 'the copy constructor'}[n], cls)
            if v.op == 'phi': c.unknown('cached-hash', what); continue
            u = has_undef(e, v, A[0])
            if u is not None: c.bad('cached-hash', what + ' is computed from members which are not initialised yet', loc, repr(v)); continue
            if n == 'copy' and v.op == 'mem0' and v.a[0] is A[1] and v.a[1] == off and all(same_as_source(f, fv) for f, fv in vals):
                c.ok('cached-hash', 1, what); continue
            if n == 'copy' and tmpl is not None:
                m = {p: subst(fv, lambda z: None) for (p, _), (_, fv) in zip(tmpl[1], vals)}
                c.check(subst(tmpl[0], m.get) is v, 'cached-hash', what + ' is not the hash of its fields', loc, repr(v)); continue
            if n == 'make':
                rep = {}; ph = []
                for k, (f, fv) in enumerate(vals):
                    p = mk('field', k, w=fv.w); ph.append((p, f))
                    if not isc(fv): rep[fv] = p
                t = subst(v, rep.get)
                left = [z for z in subterms(t) if z.op in ('arg', 'mem0', 'cont0', 'ev', 'glob', 'alloca')]
                c.check(not left, 'cached-hash', what + ' depends on something other than its fields' if left else what, loc, repr(v))
                tmpl = (t, ph)
            elif tmpl is not None:
                m = {p: fv for (p, _), (_, fv) in zip(tmpl[1], vals)}
                c.check(subst(tmpl[0], m.get) is v, 'cached-hash', what + ' is not the hash of its fields', loc, repr(v))
def same_as_source(f, v):
    """v is the value of f in the object copied from"""
    rs = reads(v)
    return bool(rs) and all(root(r.a[0]) is A[1] for r in rs)
