"""Hash-consed value numbers (terms) with local simplification.  No solver: only algebraic rewriting."""
import sys
sys.setrecursionlimit(10000)

class Term:
    __slots__ = ('op', 'a', 'id', 'w', 'atoms')
    def __repr__(self):
        return show(self)

_tab = {}
NOATOMS = frozenset()
def mk(op, *a, w=64):
    k = (op, w) + tuple(x.id if isinstance(x, Term) else (x if not isinstance(x, tuple) else tuple(y.id if isinstance(y, Term) else y for y in flat(x))) for x in a) + tuple(1 if isinstance(x, Term) else 0 for x in a)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; t.w = w; t.id = len(_tab) + 1
        s = set()
        if op in ('phi', 'ev', 'memh'):
            s.add(t)
        for x in a:
            if isinstance(x, Term): s |= x.atoms
            elif isinstance(x, tuple):
                for y in flat(x):
                    if isinstance(y, Term): s |= y.atoms
        t.atoms = frozenset(s) if s else NOATOMS
        _tab[k] = t
    return t
def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield '('
            yield from flat(y)
            yield ')'
        else: yield y

def C(v, w=64): return mk('c', v & ((1 << w) - 1), w=w)
TRUE = C(1, 1); FALSE = C(0, 1); NULL = C(0, 64)
def isc(t): return t.op == 'c'
def cv(t): return t.a[0]
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def show(t, d=0):
    if not isinstance(t, Term): return repr(t)
    if d > 7: return '..'
    o = t.op
    if o == 'c': return str(t.a[0])
    if o == 'ptr': return '%s+%s' % (show(t.a[0], d + 1), t.a[1])
    def s(x):
        if isinstance(x, Term): return show(x, d + 1)
        if isinstance(x, tuple): return '[' + ','.join(s(y) for y in x) + ']'
        return str(x)[:60]
    return '%s(%s)' % (o, ', '.join(s(x) for x in t.a))

# ---- pointers
def ptr(base, off):
    if base.op == 'ptr': return ptr(base.a[0], base.a[1] + off)
    if base.op == 'c': return C(cv(base) + off, 64)
    if off == 0: return base
    return mk('ptr', base, off)
def split(p):
    if p.op == 'ptr': return p.a[0], p.a[1]
    return p, 0
def gep(base, off, var):
    b, o = split(base); o += off
    vs = {}
    if b.op == 'idx':
        for t, s in b.a[1]: vs[t] = vs.get(t, 0) + s
        b = b.a[0]
        b, o2 = split(b); o += o2
    for t, s in var:
        t2, k, m = lin(t)
        o += k * s
        if t2 is not None: vs[t2] = vs.get(t2, 0) + s * m
    vs = tuple(sorted(((t, s) for t, s in vs.items() if s), key=lambda x: x[0].id))
    if vs: return ptr(mk('idx', b, vs), o)
    return ptr(b, o)
def lin(t):
    """t = m*x + k (wrapping ignored for 64 bit and widened indices)"""
    if t.op in ('sext', 'zext') :
        x, k, m = lin(t.a[0])
        if x is None: return None, cv(t) if isc(t) else k, 0
        if t.a[0].op in ('add',) : # widening an addition: keep the widened sum opaque unless 64 bit
            return t, 0, 1
        return t, 0, 1
    if isc(t): return None, sgn(cv(t), t.w), 0
    if t.op == 'add' and isc(t.a[1]):
        x, k, m = lin(t.a[0]); return x, k + sgn(cv(t.a[1]), t.w), m
    if t.op == 'mul' and isc(t.a[1]):
        x, k, m = lin(t.a[0]); c = sgn(cv(t.a[1]), t.w); return x, k * c, m * c
    return t, 0, 1
def root(p):
    b, _ = split(p)
    while b.op == 'idx':
        b, _ = split(b.a[0])
    return b

COMM = {'add', 'mul', 'and', 'or', 'xor'}
def binop(o, w, a, b):
    if o == 'sub':
        if isc(b): return binop('add', w, a, C(-cv(b), w))
        if a is b: return C(0, w)
        if a.op == 'ptr' or b.op == 'ptr' :
            x, i = split(a); y, j = split(b)
            if x is y: return C(i - j, w)
        # (x+c) - x
        if a.op == 'add' and a.a[0] is b: return a.a[1]
        if a.op == 'add' and a.a[1] is b: return a.a[0]
    if isc(a) and isc(b):
        x, y = cv(a), cv(b); m = (1 << w) - 1
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y if y < w else 0,
                 'ashr': lambda: sgn(x, w) >> min(y, w - 1), 'udiv': lambda: x // y, 'urem': lambda: x % y,
                 'sdiv': lambda: int(sgn(x, w) / sgn(y, w)), 'srem': lambda: sgn(x, w) - int(sgn(x, w) / sgn(y, w)) * sgn(y, w)}[o]()
            return C(r, w)
        except (KeyError, ZeroDivisionError):
            return mk(o, a, b, w=w)
    if o in COMM:
        if isc(a): a, b = b, a
        elif not isc(b) and a.id > b.id: a, b = b, a
    if o == 'add' and (a.op in ('alloca', 'arg', 'ptr', 'ev', 'idx') and a.w == 64 and isc(b) and a.op == 'ptr'):
        return ptr(a, sgn(cv(b), w))
    if isc(b):
        v = cv(b)
        if v == 0:
            if o in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if o in ('and', 'mul'): return b
        if v == 1 and o in ('mul', 'udiv', 'sdiv'): return a
        if v == (1 << w) - 1:
            if o == 'and': return a
            if o == 'or': return b
        if w == 1 and o == 'xor' and v == 1: return notb(a)
        if o == 'add' and a.op == 'add' and isc(a.a[1]): return binop('add', w, a.a[0], C(cv(a.a[1]) + v, w))
        if o == 'and' and a.op == 'and' and isc(a.a[1]): return binop('and', w, a.a[0], C(cv(a.a[1]) & v, w))
        if o in ('and', 'or', 'xor') and a.op == 'zext' and v < (1 << a.a[0].w) :
            return cast('zext', w, binop(o, a.a[0].w, a.a[0], C(v, a.a[0].w)))
        if o in ('sdiv', 'ashr') and a.op in ('sub',) : return mk(o, a, b, w=w)
    if a is b:
        if o in ('and', 'or'): return a
        if o == 'xor': return C(0, w)
    if o in ('and', 'or', 'xor') and a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return cast('zext', w, binop(o, a.a[0].w, a.a[0], b.a[0]))
    if w == 1 and o in ('and', 'or'):
        if a is notb(b): return FALSE if o == 'and' else TRUE
    if w == 1 and o == 'xor':
        if a.op == 'not' : return notb(binop('xor', 1, a.a[0], b))
        if b.op == 'not' : return notb(binop('xor', 1, a, b.a[0]))
    return mk(o, a, b, w=w)

def notb(a):
    if isc(a): return C(1 - cv(a), 1)
    if a.op == 'not': return a.a[0]
    return mk('not', a, w=1)

def cast(o, w, a):
    if o in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
        if o == 'ptrtoint' and w < 64: return cast('trunc', w, a)
        return a
    if o in ('zext', 'sext', 'trunc') and a.w == w: return a
    if isc(a):
        v = cv(a)
        if o == 'zext': return C(v, w)
        if o == 'trunc': return C(v, w)
        if o == 'sext': return C(sgn(v, a.w), w)
    if o == 'trunc':
        if a.op in ('zext', 'sext'):
            x = a.a[0]
            if x.w == w: return x
            if x.w > w: return cast('trunc', w, x)
            return cast(a.op, w, x)
        if a.op == 'trunc': return cast('trunc', w, a.a[0])
        if a.op in ('and', 'or', 'xor', 'add') and (isc(a.a[1]) or w == 1 or a.op in ('and', 'or', 'xor')):
            return binop(a.op, w, cast('trunc', w, a.a[0]), cast('trunc', w, a.a[1]))
    if o == 'zext' and a.op == 'zext': return cast('zext', w, a.a[0])
    if o == 'sext' and a.op == 'sext': return cast('sext', w, a.a[0])
    if o == 'sext' and a.op == 'zext' and a.a[0].w < a.w: return cast('zext', w, a.a[0])
    if a.op == 'select' and o in ('zext', 'sext', 'trunc') and isc(a.a[1]) and isc(a.a[2]):
        return select(a.a[0], cast(o, w, a.a[1]), cast(o, w, a.a[2]))
    return mk(o, a, w=w)

def select(c, a, b):
    if isc(c): return a if cv(c) else b
    if a is b: return a
    if c.op == 'not': return select(c.a[0], b, a)
    if a.w == 1 and isc(a) and isc(b): return c if cv(a) else notb(c)
    if a.w == 1 and isc(b) and cv(b) == 0: return binop('and', 1, c, a)
    if a.w == 1 and isc(a) and cv(a) == 1: return binop('or', 1, c, b)
    if a.w == 1 and isc(b) and cv(b) == 1: return binop('or', 1, notb(c), a)
    if a.w == 1 and isc(a) and cv(a) == 0: return binop('and', 1, notb(c), b)
    return mk('select', c, a, b, w=a.w)

def nonnull(t):
    b, o = split(t)
    return b.op in ('alloca', 'glob', 'new', 'mapit', 'mapnode', 'blk')

def icmp(p, a, b):
    w = a.w
    if p == 'ne': return notb(icmp('eq', a, b))
    if p == 'ugt': return icmp('ult', b, a)
    if p == 'uge': return notb(icmp('ult', a, b))
    if p == 'ule': return notb(icmp('ult', b, a))
    if p == 'sgt': return icmp('slt', b, a)
    if p == 'sge': return notb(icmp('slt', a, b))
    if p == 'sle': return notb(icmp('slt', b, a))
    if a is b: return TRUE if p == 'eq' else FALSE
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        if p == 'eq': return C(x == y, 1)
        if p == 'ult': return C(x < y, 1)
        return C(sgn(x, w) < sgn(y, w), 1)
    if p == 'eq':
        if isc(a) : a, b = b, a
        if isc(b):
            v = cv(b)
            if a.op == 'zext':
                if v >= (1 << a.a[0].w): return FALSE
                return icmp('eq', a.a[0], C(v, a.a[0].w))
            if a.op == 'sext':
                x = C(v, a.a[0].w)
                if sgn(cv(x), x.w) & ((1 << w) - 1) != v: return FALSE
                return icmp('eq', a.a[0], x)
            if w == 1: return a if v else notb(a)
            if v == 0 and nonnull(a): return FALSE
            if a.op == 'select' and isc(a.a[1]) and isc(a.a[2]):
                return select(a.a[0], icmp('eq', a.a[1], b), icmp('eq', a.a[2], b))
            if a.op == 'add' and isc(a.a[1]): return icmp('eq', a.a[0], C(v - cv(a.a[1]), w))
            if v == 0 and a.op == 'xor': return icmp('eq', a.a[0], a.a[1])
            if v == 0 and a.op == 'sub': return icmp('eq', a.a[0], a.a[1])
            if v == 0 and a.op == 'or': return binop('and', 1, icmp('eq', a.a[0], C(0, w)), icmp('eq', a.a[1], C(0, w)))
        if a.op in ('zext', 'sext') and b.op == a.op and a.a[0].w == b.a[0].w: return icmp('eq', a.a[0], b.a[0])
        x, i = split(a); y, j = split(b)
        if x is y and i != j: return FALSE
        ra, rb = root(a), root(b)
        if ra is not rb and ra.op in ('alloca', 'glob', 'new') and rb.op in ('alloca', 'glob', 'arg', 'new'): return FALSE
        if ra is not rb and rb.op in ('alloca', 'glob', 'new') and ra.op in ('alloca', 'glob', 'arg', 'new'): return FALSE
        if w == 1 and a.op == 'not' : return notb(icmp('eq', a.a[0], b))
        if w == 1 and b.op == 'not' : return notb(icmp('eq', a, b.a[0]))
        if a.id > b.id and not isc(b): a, b = b, a
        return mk('icmp', 'eq', a, b, w=1)
    if p == 'ult':
        if isc(b) and cv(b) == 0: return FALSE
        if isc(b) and cv(b) == 1: return icmp('eq', a, C(0, w))
        if isc(a) and cv(a) == 0: return notb(icmp('eq', b, C(0, w)))
        if isc(a) and cv(a) == (1 << w) - 1: return FALSE
        if a.op == 'zext' and isc(b):
            if cv(b) > (1 << a.a[0].w) - 1: return TRUE
            return icmp('ult', a.a[0], C(cv(b), a.a[0].w))
        if b.op == 'zext' and isc(a):
            if cv(a) >= (1 << b.a[0].w) - 1: return FALSE
            return icmp('ult', C(cv(a), b.a[0].w), b.a[0])
        if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return icmp('ult', a.a[0], b.a[0])
    if p == 'slt':
        if a.op == 'zext' and isc(b):
            v = sgn(cv(b), w)
            if v <= 0: return FALSE
            return icmp('ult', a, b)
        if b.op == 'zext' and isc(a):
            v = sgn(cv(a), w)
            if v < 0: return TRUE
            return icmp('ult', a, b)
        if a.op == 'zext' and b.op == 'zext': return icmp('ult', a, b)
        if a.op == 'sext' and isc(b):
            v = sgn(cv(b), w); x = a.a[0]
            if v > (1 << (x.w - 1)) - 1: return TRUE
            if v <= -(1 << (x.w - 1)): return FALSE
            return icmp('slt', x, C(v, x.w))
        if b.op == 'sext' and isc(a):
            v = sgn(cv(a), w); x = b.a[0]
            if v >= (1 << (x.w - 1)) - 1: return FALSE
            if v < -(1 << (x.w - 1)): return TRUE
            return icmp('slt', C(v, x.w), x)
        if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return icmp('slt', a.a[0], b.a[0])
    return mk('icmp', p, a, b, w=1)

def subst(t, f, memo=None):
    """rebuild t bottom-up, applying f to leaves/terms; f returns replacement or None"""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    r = f(t)
    if r is None:
        if t.op in ('c',) or not any(isinstance(x, (Term, tuple)) for x in t.a): r = t
        else:
            def g(x):
                if isinstance(x, Term): return subst(x, f, memo)
                if isinstance(x, tuple): return tuple(g(y) for y in x)
                return x
            na = tuple(g(x) for x in t.a)
            r = rebuild(t, na)
    memo[t] = r
    return r
def rebuild(t, na):
    o = t.op
    if na == t.a: return t
    if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): return binop(o, t.w, *na)
    if o in ('zext', 'sext', 'trunc'): return cast(o, t.w, *na)
    if o == 'icmp': return icmp(*na)
    if o == 'not': return notb(na[0])
    if o == 'select': return select(*na)
    if o == 'ptr': return ptr(*na)
    if o == 'idx': return gep(na[0], 0, na[1])
    return mk(o, *na, w=t.w)
def subterms(t, seen=None):
    if seen is None: seen = set()
    if t in seen: return
    seen.add(t); yield t
    for x in t.a:
        if isinstance(x, Term): yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in flat(x):
                if isinstance(y, Term): yield from subterms(y, seen)
