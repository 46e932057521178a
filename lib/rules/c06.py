"""Abstract interpretation of save and load of every class over the text archive: the sequence of archived items (type, value or location)
of each is computed, as part of the analysis state, for every type format and for a set of container size vectors that distinguish the
containers; load is given, at the positions where save wrote a count, the count it wrote, and a symbolic item elsewhere. Item k must be
loaded with k's type and end up in the field or container element it was saved from, every field and element must be saved, nothing of the
previous contents may remain, remembered query results are dropped, and every loop over a container runs to its end for every size. The C
functions archive exactly the given database, copy the whole text with its terminator, and return the database that was loaded."""
from rules.common import *
from rules import loops

RULES = {'sequence': 14, 'restored': 30, 'elements': 20, 'replaced': 6, 'all-elements': 10, 'text': 4}
CLASSES = ['TypeDescription', 'TraceBufferSize', 'TraceVarInfo', 'TracePointData', 'TracePoint', 'Trace', 'TraceDB']
SIZES = {1: [(0,), (1,), (2,)], 3: [(1, 2, 0), (2, 0, 1), (0, 1, 2), (3, 2, 1)]}
CAP = 30

def archived(P, name):
    sg = lib.sig(P, name)
    if 'archive' in sg.cls and sg.name in ('operator&', 'operator<<', 'operator>>') and sg.params: return sg
    if sg.cls.startswith('boost::serialization') and 'archive' in sg.full and sg.name in ('make_array', 'make_binary_object'): return None
    return None
def item_type(P, t):
    t = lib.base_type(t)
    n = lib.scalar_size(P, t)
    if n:
        if t in ('float', 'double', 'long double'): return ('float', n)
        if t == 'bool': return ('bool', n)
        return ('int', n)
    return ('obj', t)
def it(k, sz): return mk('in', mk('item', k), 0, sz, 0, w=8 * sz)
def fill(e, s, p, t, k, off=[0]):
    """the object at p of type t becomes item k"""
    P = e.prog; t = lib.base_type(t)
    r = P.records.get(t)
    e.havoc(s, p, e.cur) if root(p).op in ('alloca', 'vbeg', 'new', 'heap') and split(p)[1] == 0 and root(p) is not A[1] else None
    if r and r['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
        for m in lib.fields(P, r):
            nm = lib.ditname(m['t']); q = ptr(p, m['off'])
            rr = P.records.get(nm)
            if rr and rr['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'): fill(e, s, q, nm, k)
            elif (nm in lib.SCALAR or nm.endswith('*') or rr) and m['s'] <= 8:
                e.store(s, q, m['s'], mk('in', mk('item', k), m['off'], m['s'], 0, w=8 * m['s']))
            else: lib.setc(e, s, q, mk('in', mk('item', k), m['off'], 0, 0))
    else: lib.setc(e, s, p, mk('in', mk('item', k), 0, 0, 0))

def items(r):
    """distinct item sequences at normal returns"""
    return {x.state.ts: x for x in r.returns()}
def runs(c, cls, oracle, unroll, feed=None):
    P = c.prog()
    def model(e, s, i, name, args, rt):
        sg = archived(P, name)
        if sg is None or args[0] is not A[0] and root(args[0]) is not A[0]: return None
        p = args[1]; t = sg.params[0]
        k = len(s.ts)
        if k >= CAP: return []
        ty = item_type(P, t)
        sz = lib.scalar_size(P, lib.base_type(t))
        if 'oarchive' in sg.cls:
            v = e.known(s, e.load(s, p, sz, 8 * sz)) if sz else (lib.content(e, s, p) if lib.strip_targs(lib.base_type(t)) == 'boost::flyweights::flyweight' else p)
            s.ts = s.ts + ((ty, v, locstr(i)),)
        else:
            if sz:
                cst = feed.get(k) if feed else None
                e.store(s, p, sz, C(cst, 8 * sz) if cst is not None else it(k, sz))
            else: fill(e, s, p, t, k)
            s.ts = s.ts + ((ty, p, locstr(i)),)
        return [('ret', s, args[0]), ('throw', s.copy(), 'lib')]
    return c.run('e_%s_%s' % (cls, 'save' if feed is None else 'load'), model=model, ts0=(), oracle=oracle, unroll=unroll)

def conts(P, cls): return [f for f in leaf_fields(P, cls) if f.kind == 'content' and not isfw(P, cls, f)]
def isfw(P, cls, f):
    r = P.records.get(cls)
    for m in lib.fields(P, r):
        if m['off'] == f.off: return 'flyweight' in lib.ditname(m['t']) and not lib.ditname(m['t']).startswith('std::vector')
    return False
def elem(e, v, base, cf):
    """(container field, index) of the element that location or value v is (part of)"""
    hits = set()
    def look(b, o):
        if b.op == 'vbeg' and b.a[0].op == 'cont0':
            w = which(cf, base, b.a[0])
            if w:
                esz = e.vtype.get(b.a[0])
                if esz: hits.add((w[0].name, o // esz))
    for x in subterms(v):
        if x.op in ('ptr',): look(*split(x))
        elif x.op in ('mem0',): look(*split(ptr(x.a[0], x.a[1])))
        elif x.op == 'cont0': look(*split(x.a[0]))
        elif x is v: look(*split(x))
    return hits.pop() if len(hits) == 1 else None
def from_items(e, v):
    """positions of the items value v is made of, and whether anything else is in it"""
    ks = set(); other = None
    for x in closure(e, v):
        if x.op == 'in': ks.add(x.a[0].a[0] if x.a[0].op == 'item' else x)
        elif x.op in ('mem0', 'cont0', 'uninit', 'cuninit', 'ev', 'evv', 'arg', 'pcall', 'call') : other = x
    return ks, other
def unpush(ct):
    els = []
    while ct.op == 'vpush': els.append(ct.a[1] if len(ct.a) == 2 else mk('obj', 'args', *ct.a[1:])); ct = ct.a[0]
    return ct, els[::-1]
def strip(v):
    while v.op in ('zext', 'trunc', 'sext', 'fit'): v = v.a[0]
    return v

def check(c):
    P = c.prog()
    for cls in CLASSES:
        cf = conts(P, cls)
        if cls == 'TraceVarInfo': variable(c, P)
        elif cf:
            for sizes in SIZES[len(cf)]: pair(c, P, cls, cf, sizes)
            whole(c, P, cls, cf)
        else: pair(c, P, cls, [], ())
    text(c)

def base_sizes(cf, sizes, base):
    m = {mk('vsize', f.initial(base)): n for f, n in zip(cf, sizes)}
    return lambda t: m.get(t)
def pair(c, P, cls, cf, sizes):
    hyp = cls + (' with %s' % ', '.join('%d %s' % (n, f.name) for n, f in zip(sizes, cf)) if cf else '')
    S = runs(c, cls, base_sizes(cf, sizes, A[1]), 8 if cf else 0)
    seqs = items(S)
    if len(seqs) != 1: c.unknown('sequence', 'save of %s: %d sequences' % (hyp, len(seqs))); return
    seq = list(seqs)[0]
    if has_phi(seq): c.unknown('sequence', 'save of %s is not followed' % hyp); return
    feed = {k: cv(v) for k, (ty, v, l) in enumerate(seq) if isc(v)}
    # previous contents of the object loaded into: 2 elements each
    L = runs(c, cls, base_sizes(cf, [2] * len(cf), A[1]), 8 if cf else 0, feed)
    lseqs = items(L)
    if not lseqs: c.unknown('sequence', 'load of %s does not return' % hyp); return
    for ls, x in lseqs.items():
        if has_phi(ls): c.unknown('sequence', 'load of %s is not followed' % hyp); continue
        if not sequence(c, hyp, seq, ls): continue
        for f in leaf_fields(P, cls):
            if f not in cf and not any(f.name == g.name for g in cf): scalar(c, hyp, f, seq, L.e, x)
        for f, n in zip(cf, sizes): container(c, hyp, f, n, cf, seq, ls, S.e, L.e, x)
        if cls == 'Trace': caches(c, P, L.e, x, hyp)
def has_phi(seq): return any(any(x.op == 'phi' for x in subterms(v)) for ty, v, l in seq)
def sequence(c, hyp, S, L):
    for k in range(max(len(S), len(L))):
        if k >= len(L): c.bad('sequence', '%s: item %d is saved but never loaded' % (hyp, k), S[k][2]); return False
        if k >= len(S): c.bad('sequence', '%s: item %d is loaded but never saved' % (hyp, k), L[k][2]); return False
        a, b = S[k][0], L[k][0]
        if a[0] == 'float': c.bad('sequence', '%s: item %d is saved as a floating point text, which cannot restore every value' % (hyp, k), S[k][2]); return False
        if a == b: continue
        if a[0] == b[0] == 'int':
            if b[1] < a[1]: c.bad('sequence', '%s: item %d is loaded with %d bytes but saved with %d' % (hyp, k, b[1], a[1]), L[k][2]); return False
            continue
        if 'obj' in (a[0], b[0]): c.bad('sequence', '%s: item %d is saved as %s but loaded as %s' % (hyp, k, a[1], b[1]), L[k][2]); return False
        c.unknown('sequence', '%s: item %d is saved as %s but loaded as %s' % (hyp, k, a, b), L[k][2]); return False
    c.ok('sequence', 1, '%s: %d items' % (hyp, len(S)))
    return True
def scalar(c, hyp, f, seq, e, x):
    o = f.initial(A[1])
    ks = [k for k, (ty, v, l) in enumerate(seq) if v is o or v.op in ('zext', 'sext') and v.a[0] is o]
    v = e.known(x.state, f.at(e, x.state, A[1])) if f.kind == 'scalar' else f.at(e, x.state, A[1])
    what = '%s: %s' % (hyp, f.name)
    if not ks:
        part = [k for k, (ty, y, l) in enumerate(seq) if o in subterms(y) or any(z.op == 'mem0' and z.a[0] is A[1] and z.a[1] < f.off + (f.sz or 1) and z.a[1] + z.a[2] > f.off for z in subterms(y))]
        if not part: c.bad('restored', what + ' is not saved', x.loc)
        else:
            y = seq[part[0]][1]
            while y.op in ('zext', 'sext'): y = y.a[0]
            if y.op == 'trunc' or y.op == 'mem0': c.bad('restored', what + ' is saved only in part', seq[part[0]][2])
            else: c.unknown('restored', what + ' is saved as %r' % (y,), seq[part[0]][2])
        return
    got, other = from_items(e, strip(v))
    if v is o: c.bad('restored', what + ' is not loaded', x.loc)
    elif got and not (got & set(ks)): c.bad('restored', what + ' is loaded from another position', x.loc, 'saved at %s, loaded from %s' % (ks, sorted(map(str, got))))
    elif len(got) == 1 and not other and strip(v).op == 'in':
        if f.kind == 'scalar' and strip(v).a[2] < (f.sz or 0) and seq[ks[0]][0][1] > strip(v).a[2]: c.bad('restored', what + ' is loaded only in part', x.loc)
        else: c.ok('restored', 1, what + ' is saved and loaded at position %d' % ks[0])
    elif not got and v.op in ('c', 'uninit', 'mem0', 'cont0'): c.bad('restored', what + ' is not restored', x.loc, repr(v))
    else: c.unknown('restored', what + ': %r' % (v,), x.loc)
def container(c, hyp, f, n, cf, seq, ls, se, e, x):
    saved = {}
    for k, (ty, v, l) in enumerate(seq):
        h = elem(se, v, A[1], cf)
        if h and h[0] == f.name: saved.setdefault(h[1], []).append(k)
    for j in range(n):
        if j not in saved: c.bad('elements', '%s: element %d of the %s is not saved' % (hyp, j, f.name), seq[0][2] if seq else '?'); return
    for j in saved:
        if not 0 <= j < n: c.bad('elements', '%s: element %d of %d %s is saved' % (hyp, j, n, f.name), seq[saved[j][0]][2]); return
    ct = f.at(e, x.state, A[1])
    what = '%s: %s' % (hyp, f.name)
    b, els = unpush(ct)
    esz = e.vtype.get(f.initial(A[1])) or e.vtype.get(ct) or 1
    if b.op == 'cont0' and not els:
        c.bad('replaced', what + ' keeps what it held before', x.loc); return
    if els and b.op in ('cont0', 'vresize', 'vn'):
        c.bad('replaced', what + ' is appended to what it held before' if b.op == 'cont0' else what + ' is appended to the elements the container was resized to', x.loc); return
    if b.op == 'vempty': m = C(len(els))
    elif b.op in ('vresize', 'vn') and not els: m = e.known(x.state, lib.vsize(b))
    else: c.unknown('elements', what + ': %r' % (ct,), x.loc); return
    if not isc(m): c.unknown('elements', what + ': %r elements' % (m,), x.loc); return
    if cv(m) != n: c.bad('elements', what + ': %d elements are restored' % cv(m), x.loc); return
    c.ok('replaced', 1, what)
    inplace = {}
    for k, (ty, p, l) in enumerate(ls):
        q, o = split(p)
        if q.op == 'vbeg' and q.a[0] is ct: inplace.setdefault(o // esz, []).append(k)
    for j in range(n):
        if b.op == 'vempty':
            ks, other = from_items(e, els[j])
            if other is not None and other.op in ('uninit', 'cuninit'): c.bad('elements', what + ': element %d is not loaded' % j, x.loc); continue
        else: ks, other = set(inplace.get(j, ())), None
        if not ks and b.op == 'vempty' and other is not None: c.unknown('elements', what + ': element %d' % j, x.loc)
        elif not ks: c.bad('elements', what + ': element %d is not restored' % j, x.loc)
        elif not ks <= set(saved[j]): c.bad('elements', what + ': element %d is restored from another position' % j, x.loc, 'saved at %s, loaded from %s' % (saved[j], ks))
        else: c.ok('elements', 1, what + ': element %d' % j)
def caches(c, P, e, x, hyp):
    r = P.records.get('Trace')
    fs = {f.off for f in leaf_fields(P, 'Trace')}
    for m in lib.fields(P, r):
        if m['off'] in fs or not re.search(r'(map|set)\b', lib.strip_targs(lib.ditname(m['t']))): continue
        v = lib.content(e, x.state, ptr(A[1], m['off']))
        if v.op in ('vempty', 'mapempty') or v.op == 'str': c.ok('replaced', 1, 'remembered results are dropped when a trace is loaded')
        elif v.op == 'cont0': c.bad('replaced', 'results remembered in %s survive loading over the trace' % m.get('n'), x.loc)
        else: c.unknown('replaced', '%s: %r' % (m.get('n'), v), x.loc)
def whole(c, P, cls, cf):
    """loops run to the end for every size"""
    r = c.run('e_%s_save' % cls)
    big = {mk('vsize', f.initial(A[1])): (1 << 20) + j for j, f in enumerate(cf)}
    r2 = c.run('e_%s_save' % cls, oracle=big.get)
    for f in cf:
        what = 'save of %s: every one of the %s is saved' % (cls, f.name)
        loops.cover(c, r, 'all-elements', what, f.initial(A[1]))
        loops.cover(c, r2, 'all-elements', what, f.initial(A[1]), C(big[mk('vsize', f.initial(A[1]))]))
    def model(e, s, i, name, args, rt):
        sg = archived(P, name)
        if sg is None: return None
        t = sg.params[0]; sz = lib.scalar_size(P, lib.base_type(t))
        k = i['i']
        if sz: e.store(s, args[1], sz, it(('n', k), sz))
        else: fill(e, s, args[1], t, ('n', k))
        return [('ret', s, args[0]), ('throw', s.copy(), 'lib')]
    r = c.run('e_%s_load' % cls, model=model)
    # counts: scalars loaded outside of loops
    cyc = set().union(*loops.natural(r.e.fn).values()) if r.e.fn.heads else set()
    evs = [ev for ev in r.events if archived(P, ev.name) and ev.block not in cyc]
    for ev in evs:
        sz = lib.scalar_size(P, lib.base_type(archived(P, ev.name).params[0]))
        if not sz: continue
        n = it(('n', ev.ins['i']), sz)
        n = cast('zext', 64, n) if sz < 8 else n
        # a loop counted by n, or over a container resized to n
        vs = loops.covered(r, None, n)
        for ct in {x for x in r.e.vtype if x.op in ('vresize', 'vn') and lib.vsize(x) is n}: vs += loops.covered(r, ct, n)
        if any(v is False for _, v, _ in vs) and not any(v is True for _, v, _ in vs):
            c.bad('all-elements', 'load of %s: the loop may end before the last element' % cls, loops.blockloc(r.e.fn, [b for _, v, b in vs if v is False][0]))
        elif any(v for _, v, _ in vs): c.ok('all-elements', 1, 'load of %s: as many as were saved' % cls)
        else: c.unknown('all-elements', 'load of %s: loop for the count at %s' % (cls, ev.loc))

def variable(c, P):
    F = P.enum('type_format')
    V, T, Z = [field(P, 'TraceVarInfo', g) for g in ('getValue', 'getTypeFormat', 'getSize')]
    for name, fv in sorted(F.items(), key=lambda x: x[1]):
        for n in ((0, 1, 3) if name == 'BLOB' else (0, 1, 2, 4, 8)):
            if n == fv: n += 16
            pins = {T.initial(A[1]): fv, Z.initial(A[1]): n}
            hyp = 'TraceVarInfo of format %s and size %d' % (name, n)
            S = runs(c, 'TraceVarInfo', pins.get, 8)
            seqs = items(S)
            if len(seqs) != 1 or has_phi(list(seqs)[0]): c.unknown('sequence', 'save of %s' % hyp); continue
            seq = list(seqs)[0]
            feed = {k: cv(v) for k, (ty, v, l) in enumerate(seq) if isc(v)}
            L = runs(c, 'TraceVarInfo', lambda t: None, 8, feed)
            for ls, x in items(L).items():
                if has_phi(ls): c.unknown('sequence', 'load of %s' % hyp); continue
                if not sequence(c, hyp, seq, ls): continue
                for f in fields(P, 'TraceVarInfo'):
                    if f is V and name == 'BLOB': continue
                    o = f.initial(A[1])
                    if o in pins:
                        v = L.e.known(x.state, f.at(L.e, x.state, A[1]))
                        if isc(v): c.check(cv(v) == pins[o], 'restored', '%s: %s' % (hyp, f.name), x.loc, repr(v))
                        elif v is o: c.bad('restored', '%s: %s is not loaded' % (hyp, f.name), x.loc)
                        else: c.unknown('restored', '%s: %s' % (hyp, f.name), x.loc)
                    else: scalar(c, hyp, f, seq, L.e, x)
                if name == 'BLOB': blob(c, hyp, V, n, seq, L.e, x)
def blob(c, hyp, V, n, seq, e, x):
    p0 = V.initial(A[1])
    p = e.load(x.state, ptr(A[1], V.off), 8, 64)
    if p is p0 or p.op in ('c', 'in', 'uninit'): c.bad('restored', hyp + ': the bytes are not stored in memory of their own', x.loc, repr(p)); return
    if p.op != 'heap': c.unknown('restored', hyp + ': value %r' % (p,), x.loc); return
    z = e.known(x.state, e.heap.get(p, mk('?')))
    if isc(z): c.check(cv(z) >= n, 'restored', hyp + ': room for the bytes', x.loc, repr(z))
    for j in range(n):
        ks = [k for k, (ty, v, l) in enumerate(seq) if v.op == 'mem0' and v.a[2] == 1 and split(ptr(v.a[0], v.a[1])) == split(ptr(p0, j))]
        if not ks: c.bad('restored', hyp + ': byte %d is not saved' % j, x.loc); return
        v = e.load(x.state, ptr(p, j), 1, 8)
        got, _ = from_items(e, v)
        if got and not got & set(ks) or v.op in ('uninit', 'c'): c.bad('restored', hyp + ': byte %d is not restored' % j, x.loc, repr(v))
        elif v.op == 'in': c.ok('restored', 1, hyp + ': byte %d' % j)
        else: c.unknown('restored', hyp + ': byte %d' % j, x.loc)

def text(c):
    P = c.prog('capi')
    def saver(e, s, i, name, args, rt):
        sg = archived(P, name)
        if sg and 'oarchive' in sg.cls:
            s.ts = s.ts + ((args[1], lib.base_type(sg.params[0])),) if len(s.ts) < 4 else s.ts
            return [('ret', s, args[0]), ('throw', s.copy(), 'lib')]
        return None
    r = c.run('serialize_trace_db', cfg='capi', model=saver, ts0=())
    for x in r.returns():
        if x.value is not None and isc(x.value) and cv(x.value) == 0: continue
        ok = x.state.ts == ((A[0], 'TraceDB'),)
        c.check(ok, 'text', 'the given database is written, once', x.loc, repr(x.state.ts))
    for ev in r.events:
        if ev.name in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'memccpy') or ev.name.startswith('llvm.memcpy') or ev.name in ('!memcpy', '!memcpyn'):
            d = ev.args[0]; src = ev.args[1]
            if root(d).op != 'heap' or src.op != 'cstr': continue
            want = binop('add', 64, lib.slen(src.a[0]), C(1))
            z = r.e.heap.get(root(d))
            n = ev.args[2] if len(ev.args) > 2 else None
            if ev.name != 'strcpy': judge_len(c, n, want, 'the text is copied with its terminator', ev.loc)
            judge_len(c, z, want, 'room for the text and its terminator', ev.loc)
    def loader(e, s, i, name, args, rt):
        sg = archived(P, name)
        if sg and 'iarchive' in sg.cls:
            s.ts = (args[1], lib.base_type(sg.params[0]))
            return [('ret', s, args[0]), ('throw', s.copy(), 'lib')]
        return None
    r = c.run('deserialize_trace_db', cfg='capi', model=loader, ts0=None)
    for x in r.returns():
        v = r.e.known(x.state, x.value)
        if isc(v): 
            c.ok('text', 1, 'nothing is returned on failure'); continue
        if x.state.ts is None: c.bad('text', 'a database is returned that was not loaded', x.loc)
        elif v is x.state.ts[0]: c.check(x.state.ts[1] == 'TraceDB', 'text', 'the loaded database is returned', x.loc)
        else: c.unknown('text', 'returned: %r' % (v,), x.loc)
def judge_len(c, n, want, what, loc):
    if n is want: c.ok('text', 1, what)
    elif n is None: c.unknown('text', what, loc)
    elif isc(n) or n in [x for x in subterms(want)] and n is not want: c.bad('text', what + ': it is not', loc, repr(n))
    elif n.op == 'add' and isc(n.a[1]) and n.a[0] is want.a[0] and sg64(cv(n.a[1])) >= 1: c.ok('text', 1, what)
    else: c.unknown('text', what, loc)
def sg64(x): return x - (1 << 64) if x >> 63 else x
