"""Every read from the stream is matched with the capacity of its destination (member of the object, local, heap block whose size is the
same value): length <= capacity by ranges and branch facts. Every index into the dictionaries, the name buffer and the level arrays of
the allocation map is bounded by facts that dominate the use (including the terminator argument for the name scan). References and
sizes that do not fit have no normally returning path. Under the hypothesis address = 2^64-1 the allocation map is not changed, nodes are
only released when they are not its anchor, and the map's height stays inside the anchor's array."""
from rules.common import *
from rules.bounds import *
from rules import c02
import stream

RULES = {'read-capacity': 12, 'index-in-range': 4, 'name-scan': 2, 'reference-check': 3, 'size-class': 40, 'blob-allocation': 1}
READERS = [('e_Trace_read', None), ('e_TracePoint_read', None), ('e_TracePoint_read3', None), ('e_TracePoint_read4', None), ('e_TraceVarInfo_read', 'TraceVarInfo'), ('e_TraceVarInfo_read3', 'TraceVarInfo'),
           ('e_TypeDescription_read', 'TypeDescription'), ('e_TypeDescription_readn', 'TypeDescription'), ('e_TraceBufferSize_read', 'TraceBufferSize')]

def check(c):
    P = c.prog('nomap')
    for fn, cls in READERS: reader(c, P, fn, cls)
    c02.references(c, P); c02.sizes(c, P)
    nullblob(c, P)
    memmap(c, c.prog())

def dest_class(fn, cls, p):
    if cls: return cls
    if root(p) is A[0]: return {'e_Trace_read': 'Trace'}.get(fn, 'TracePoint')
    return None

def reader(c, P, fn, cls):
    r = c.run(fn, cfg='nomap')
    e = r.e
    for ev in r.events:
        sg = lib.sig(P, ev.name) if not ev.name.startswith('!') else None
        if sg and sg.cls in stream.ISTREAM and sg.name == 'read':
            p, n = ev.args[1], ev.args[2]
            cap = capacity(e, P, p, dest_class(fn, cls, p))
            what = 'read of %s bytes' % (cv(n) if isc(n) else 'a number of')
            if cap is None: c.unknown('read-capacity', what + ': destination not identified (%r)' % (p,), ev.loc); continue
            if fits(e, ev.state, p, n, cap): c.ok('read-capacity', 1, '%s into %s at %s' % (what, cap[-1], ev.loc)); continue
            w = witness(c, P, ev, cap)
            if w is False: c.unknown('read-capacity', what + ': only confirmed for representative sizes', ev.loc); continue
            c.bad('read-capacity', what + ' into %s%s' % (cap[-1], w or ''), ev.loc, 'length %r in %r, capacity %r' % (n, e.krange(ev.state, n), cap))
        elif sg and sg.cls == 'std::vector' and sg.name == 'operator[]':
            ct = lib.content(e, ev.state, ev.args[0])
            if known_lt(e, ev.state, ev.args[1], lib.vsize(ct)): c.ok('index-in-range', 1, 'element access at %s' % ev.loc)
            elif definite(e, ev.args[1]): c.bad('index-in-range', 'an index read from the trace is used without a check against the number of elements', ev.loc, '%r of %r' % (ev.args[1], ct))
            else: c.unknown('index-in-range', 'element access', ev.loc)
        elif ev.name in ('!load', '!store') and root(ev.args[0]).op in ('new', 'heap') and split(ev.args[0])[0].op == 'idx':
            cap = capacity(e, P, ev.args[0])
            n = C(ev.ins['sz'])
            if cap and fits(e, ev.state, ev.args[0], n, cap): c.ok('name-scan', 1, 'access at %s' % ev.loc)
            else: c.bad('name-scan', 'access to the bytes read may leave the buffer', ev.loc, '%r of %r' % (ev.args[0], cap))
        elif sg and sg.cls == 'std::__cxx11::basic_string' and sg.name == 'basic_string' and sg.params and sg.params[0].startswith('char const*') and root(ev.args[1]).op in ('new', 'heap', 'vbeg'):
            p = ev.args[1]; cap = capacity(e, P, p)
            cstr = len([x for x in sg.params if 'allocator' not in x]) == 1
            if not cap or not cstr: c.unknown('name-scan', 'string built from the buffer', ev.loc); continue
            inside = fits(e, ev.state, p, C(1), cap)
            term = terminated(e, ev.state, p, cap)
            if inside and term: c.ok('name-scan', 1, 'string built from a terminated buffer at %s' % ev.loc)
            else: c.bad('name-scan', 'a name is taken from a buffer which %s' % ('is not known to be terminated' if inside else 'it may lie outside of'), ev.loc, repr(p))

def definite(e, t):
    """the index comes straight from the input"""
    return any(x.op == 'in' for x in closure(e, t))
def witness(c, P, ev, cap):
    """representative sizes: a concrete one that overflows (text), False if none does, None if not applicable"""
    n = strip(ev.args[2])
    if not any(x.op == 'mem0' and root(x.a[0]).op == 'vbeg' for x in closure(None if False else _E, n)) if False else False: return None
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    if cap[0] == 'term': return None
    F = P.enum('type_format')
    found = False; seen = False
    for fv in range(0, F['INVALID_FORMAT'] + 1):
        for sz in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 64, 255, 65536, (1 << 32) - 1):
            def oracle(t):
                if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and t.a[0].op == 'idx':
                    if t.a[1] == ff.off and t.a[2] == ff.sz: return fv
                    if t.a[1] == fz.off and t.a[2] == fz.sz: return sz
                return None
            r = c.run('e_TraceVarInfo_read', cfg='nomap', oracle=oracle)
            for x in r.events:
                if x.ins.get('l') == ev.ins.get('l') and not x.name.startswith('!') and stream.is_read(r.e, x.name):
                    seen = True
                    cp = capacity(r.e, P, x.args[1], 'TraceVarInfo')
                    if isc(x.args[2]) and cp and not fits(r.e, x.state, x.args[1], x.args[2], cp): return ' (type format %d, size %d)' % (fv, sz)
                    if not isc(x.args[2]): return None
    return False if seen else None
def terminated(e, s, p, cap):
    """the last byte of the block is known to be zero"""
    r = root(p); n = cap[1]
    if not isinstance(n, Term): return False
    for f, v in s.facts.items():
        m = None
        if f.op == 'icmp' and f.a[0] == 'eq' and v is TRUE and isc(f.a[2]) and cv(f.a[2]) == 0: m = f.a[1]
        elif f.op == 'mem0' and isc(v) and cv(v) == 0: m = f
        if m is not None and m.op == 'mem0' and root(m.a[0]) is r and m.a[0].op == 'idx' and len(m.a[0].a[1]) == 1 and strip(m.a[0].a[1][0][0]) is strip(n) and m.a[1] == -1: return True
    return False

def nullblob(c, P):
    """malloc fails: nothing may be read into the null pointer"""
    def model(e, s, i, name, args, rt):
        if name in ('malloc', 'calloc'): return [('ret', s, NULL)]
    r = c.run('e_TraceVarInfo_read', cfg='nomap', model=model)
    n = 0
    for ev in r.events:
        if stream.is_read(r.e, ev.name):
            p = r.e.known(ev.state, ev.args[1])
            if isc(p):
                n += 1
                c.check(r.e.krange(ev.state, ev.args[2])[1] == 0, 'blob-allocation', 'when memory runs out, blob bytes are read to a null pointer', ev.loc)
    if not n: c.ok('blob-allocation', 1, 'no read through the result of a failed allocation')

def memmap(c, P):
    r = c.run('e_MemoryMap_ctor'); e = r.e
    x = r.returns()[0]
    cells = x.state.mem.get(A[0], {})
    nxt = [o for o, v in cells.items() if isinstance(o, int) and v[1].op == 'new' and isc(e.heap.get(v[1], A[0]))]
    hgt = [o for o, v in cells.items() if isinstance(o, int) and v[0] == 4 and isc(v[1]) and cv(v[1]) == 1]
    if len(nxt) != 1 or len(hgt) != 1:
        c.unknown('map-level', 'the allocation map is not the skip list the rule knows'); return
    N = cv(e.heap[cells[nxt[0]][1]]) // 8
    for ev in r.events:
        if ev.name == '!store' and root(ev.args[0]).op == 'new':
            cap = capacity(e, P, ev.args[0])
            c.check(cap and fits(e, ev.state, ev.args[0], C(8), cap), 'map-level', 'the constructor of the map stays inside the anchor\'s array', ev.loc)
    height = mk('mem0', A[0], hgt[0], 4, 0, w=32); head = mk('mem0', A[0], nxt[0], 8, 0)
    asm = [(icmp('ult', height, C(N, 32)), 1), (icmp('eq', height, C(0, 32)), 0)]
    addr = field(P, 'TraceBufferSize', 'getAddress'); size = field(P, 'TraceBufferSize', 'getSize')
    for fn in ('e_MemoryMap_update', 'e_MemoryMap_size', 'e_MemoryMap_dtor', 'e_MemoryMap_clear'):
        r = c.run(fn, assume=asm); e = r.e
        for ev in r.events:
            if ev.name in ('!load', '!store'):
                p = ev.args[0]; b, o = split(p)
                if b.op != 'idx': continue
                rt = root(p)
                if rt.op == 'alloca' or rt.op in ('new', 'heap'):
                    cap = capacity(e, P, p)
                    if cap and fits(e, ev.state, p, C(ev.ins['sz']), cap): c.ok('map-level')
                    else: c.bad('map-level', 'a level index may leave the array', ev.loc, '%r: %r' % (p, [e.krange(ev.state, t) for t, _ in b.a[1]]))
                elif rt.op == 'mem0' and len(b.a[1]) == 1 and b.a[1][0][1] == 8:
                    hi = e.krange(ev.state, b.a[1][0][0])[1] + o // 8
                    c.check(hi < N, 'map-level', 'levels are at most %d' % (N - 1) if hi < N else 'a level up to %d is used, the anchor has %d' % (hi, N - 1), ev.loc)
        for x in r.returns():
            h = e.load(x.state, ptr(A[0], hgt[0]), 4, 32)
            lo, hi = e.krange(x.state, h)
            if fn != 'e_MemoryMap_dtor': c.check(1 <= lo and hi < N, 'map-level', 'the height stays within 1 and %d' % (N - 1) if 1 <= lo and hi < N else 'the height may become %d..%d, the anchor has %d levels' % (lo, hi, N - 1), loc0(r), repr(h))
        # releases
        if fn == 'e_MemoryMap_update':
            key = addr.initial(A[1])
            for ev in r.events:
                if lib.sig(P, ev.name).name in ('operator delete', 'operator delete[]'):
                    t = ev.args[0]
                    node = t.a[0] if t.op == 'mem0' and lib.sig(P, ev.name).name.endswith('[]') and t.a[1] == nxt_off(cells, nxt[0]) else t
                    k = e.load(ev.state, node, 8, 64)
                    ok = e.known(ev.state, icmp('eq', k, key)) is TRUE or e.known(ev.state, icmp('eq', node, ptr(A[0], nxt[0] - nxt_off(cells, nxt[0])))) is FALSE
                    c.check(ok, 'map-anchor', 'only a node with the released address is deleted' if ok else 'a node is deleted which may be the anchor of the map', ev.loc, repr(node))
    for sz in (0, 1):
        def oracle(t):
            if t.op == 'mem0' and t.a[0] is A[1]:
                if t.a[1] == addr.off: return (1 << 64) - 1
                if t.a[1] == size.off: return 0 if sz == 0 else 4096
        r = c.run('e_MemoryMap_update', oracle=oracle, assume=asm)
        ch = [ev for ev in r.events if ev.name == '!store' and root(ev.args[0]).op != 'alloca' or lib.sig(P, ev.name).name in ('operator delete', 'operator delete[]', 'operator new', 'operator new[]')]
        c.check(not ch, 'map-anchor', 'a record with address 2^64-1 (size %s) leaves the map alone' % ('zero' if sz == 0 else 'non-zero') if not ch else 'a record with address 2^64-1, the key of the anchor, changes the map', ch[0].loc if ch else loc0(r))
def nxt_off(cells, nx):
    """offset of the array pointer inside a node: the anchor starts at its key"""
    ks = [o for o, v in cells.items() if isinstance(o, int) and v[0] == 8 and isc(v[1]) and cv(v[1]) == (1 << 64) - 1]
    return nx - ks[0] if ks else 16
def loc0(r):
    for ev in r.events:
        if 'cffi-interface' in ev.loc: return ev.loc
    return '?'
