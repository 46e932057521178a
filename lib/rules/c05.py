"""Writer and reader compared by abstract interpretation of both: for every class (and for variables every accepted format and size) the
sequence of (width, source) items written is matched against the sequence of (width, destination) items read; substituting what the
reader stores for the fields in what the writer emits must give back the bytes read, item by item. The point and trace writers are
evaluated for containers of up to three elements (complete sequences of tags and fields, element by element) and the loops over all
containers are shown to end only at the last element, for containers of any size."""
from rules.common import *
from rules import loops
import stream

RULES = {'item-sequence': 16, 'item-source': 40, 'entry': 15, 'header': 6, 'all-elements': 5}
SIZES = {'UNSIGNED': (1, 2, 4, 8), 'SIGNED': (1, 2, 4, 8), 'FLOAT': (4, 8), 'POINTER': (1, 2, 4, 8), 'BLOB': (0,)}
OSTREAM = ('std::ostream', 'std::basic_ostream')

def W(e, s, i, name, args, rt):
    """writer model: ts is the sequence of (width or length term, value or ('at', pointer), location)"""
    sg = lib.sig(e.prog, name)
    if sg.cls in OSTREAM and sg.name == 'put': s.ts += ((1, e.known(s, args[1]), locstr(i)),); return [('ret', s, args[0])]
    if sg.cls in OSTREAM and sg.name == 'write':
        n = e.known(s, args[2])
        if isc(n) and cv(n) <= 16:
            if cv(n): s.ts += ((cv(n), e.load(s, args[1], cv(n), 8 * cv(n)), locstr(i)),)
        else: s.ts += ((n, mk('at', args[1]), locstr(i)),)
        if len(s.ts) > 400: raise AnalysisError('a writer does not stop')
        return [('ret', s, args[0])]
    if sg.name == 'operator<<' and sg.cls in OSTREAM + ('std',) and 'ostream' in sg.full: s.ts += (('?', sg.full, locstr(i)),); return None
    if sg.cls in OSTREAM and sg.name in ('good', 'fail', 'bad', 'eof', 'operator!', 'operator bool'): return [('ret', s, C(sg.name in ('good', 'operator bool'), e.width(i.get('t'))))]
    return None
def R(e, s, i, name, args, rt):
    """reader model, good stream only: ts = (state, ((length, id), ...))"""
    def onread(s2, k, p, n): return (k, s2.ts[1] + ((e.known(s, n), rt, locstr(i)),))
    return stream.call(e, s, i, name, args, rt, kinds='', onread=onread)

def odd(items): return [x for x in items if x[0] == '?']
def show(items): return ' '.join(str(cv(x[0]) if isinstance(x[0], Term) and isc(x[0]) else x[0] if isinstance(x[0], int) else 'n') for x in items)

def pair(c, P, what, wfn, wb, woracle, rfn, rb, roracle, cls, cfg='nomap'):
    """compare what wfn writes for the object at wb with what rfn reads into the object at rb"""
    wr = c.run(wfn, cfg=cfg, model=W, ts0=(), oracle=woracle)
    rd = c.run(rfn, cfg=cfg, model=R, ts0=('G', ()), oracle=roracle)
    rets = [x for x in rd.returns()]
    wrets = wr.returns()
    if not rets: return False      # the reader does not accept it
    if not wrets: c.bad('item-sequence', '%s: the writer never returns' % what, '?'); return True
    fs = leaf_fields(P, cls)
    for x in wrets:
        items = x.state.ts
        if odd(items): c.unknown('item-sequence', '%s is written with %s' % (what, odd(items)[0][1][:40]), odd(items)[0][2]); continue
        best = None
        for y in rets:
            seq = y.state.ts[1]
            def rep(t):
                if t.op == 'mem0' and t.a[0] is split(wb)[0] and t.a[3] == 0:
                    o = t.a[1] - split(wb)[1]
                    for f in fs:
                        if f.off <= o and o + t.a[2] <= f.off + f.sz: return rd.e.load(y.state, ptr(rb, o), t.a[2], 8 * t.a[2])
                return None
            res = []
            ln = [(it[0] if not isinstance(it[0], int) else C(it[0])) for it in items]
            ln = [subst(t, rep) for t in ln]
            rl = [n for n, id_, l in seq]
            # adjacent items may be written in several pieces: compare byte positions
            if len(ln) != len(rl) or any(not eqlen(a, b) for a, b in zip(ln, rl)):
                if pieces(ln) is not None and pieces(ln) == pieces(rl): res = None
                else: best = best or ('seq', items, seq); continue
            if res is None: best = ('ok?', items, seq); continue
            bad = None; unk = None
            for it, (n, id_, l) in zip(items, seq):
                if isinstance(it[0], int):
                    v = subst(it[1], rep)
                    exp = mk('in', id_, 0, it[0], 0, w=8 * it[0])
                    if v is exp or rd.e.orc(exp) is v: continue
                    if has_in(rd.e, v, exp) and v.op in ('phi', 'hv', 'ev', 'call'): unk = (it, v)
                    else: bad = bad or (it, v)
                else:
                    p = subst(it[1].a[0], rep)
                    # the bytes read lie where the writer takes them from
                    dst = [ev.args[1] for ev in rd.events if ev.ins['i'] == id_.a[0] and stream.is_read(rd.e, ev.name)]
                    if dst and any(d is p for d in dst): continue
                    if dst: unk = (it, p)
            if bad: best = ('src', bad[0], bad[1])
            elif unk: best = ('unk', unk[0], unk[1])
            else: best = ('ok', items, seq); break
        k = best[0]
        if k == 'ok': c.ok('item-sequence', 1, '%s: widths %s' % (what, show(items))); c.ok('item-source', len(items))
        elif k == 'ok?': c.ok('item-sequence'); c.unknown('item-source', '%s is written in other pieces than it is read' % what)
        elif k == 'seq': c.bad('item-sequence', '%s: the writer emits items of widths %s, the reader takes %s' % (what, show(best[1]), show(best[2])), best[1][-1][2] if best[1] else '?')
        elif k == 'src': c.bad('item-source', '%s: an item written does not come from the field into which it is read' % what, best[1][2], repr(best[2]))
        else: c.unknown('item-source', '%s: %r' % (what, best[2]), best[1][2])
    return True
def eqlen(a, b):
    while a.op == 'zext': a = a.a[0]
    while b.op == 'zext': b = b.a[0]
    return a is b or isc(a) and isc(b) and cv(a) == cv(b)
def pieces(l):
    if all(isc(x) for x in l): return sum(cv(x) for x in l)
def has_in(e, v, x): return x in closure(e, v)

def check(c):
    P = c.prog('nomap')
    F = P.enum('type_format')
    none = lambda t: None
    pair(c, P, 'TypeDescription', 'e_TypeDescription_write', A[1], none, 'e_TypeDescription_read', A[0], none, 'TypeDescription')
    pair(c, P, 'TraceBufferSize', 'e_TraceBufferSize_write', A[1], none, 'e_TraceBufferSize_read', A[0], none, 'TraceBufferSize')
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    vf, vz, vt = field(P, 'TraceVarInfo', 'getTypeFormat'), field(P, 'TraceVarInfo', 'getSize'), field(P, 'TraceVarInfo', 'getTypeIndex')
    for n, szs in SIZES.items():
        for sz in szs:
            def ro(t):
                if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and root(t.a[0]).a[0] is mk('cont0', A[3], 0):
                    if t.a[1] == ff.off and t.a[2] == ff.sz: return F[n]
                    if t.a[1] == fz.off and t.a[2] == fz.sz: return sz
            def wo(t):
                if t.op == 'mem0' and t.a[0] is A[1]:
                    if t.a[1] == vf.off and t.a[2] == vf.sz: return F[n]
                    if n != 'BLOB' and t.a[1] == vz.off and t.a[2] == vz.sz: return sz
            if not pair(c, P, '%s variable of %s' % (n, '%d bytes' % sz if sz else 'variable size'), 'e_TraceVarInfo_write', A[1], wo, 'e_TraceVarInfo_read', A[0], ro, 'TraceVarInfo'): c.unknown('item-sequence', 'the reader rejects %s variables of size %d' % (n, sz))
    headread(c, P)
    points(c, P)

def headread(c, P):
    """what the reader takes before the first point: characters, names, number of types, types"""
    ty = [w for w, o in typeseq(c, P)]
    for nc, nt in ((0, 0), (0, 2), (5, 1)):
        pos = {}; got = set()
        want = [8] + ([nc] if nc else []) + [4] + ty * nt + [1]
        vals = {0: nc, (2 if nc else 1): nt}
        def oracle(t):
            if t.op == 'in' and t.a[1] == 0: return vals.get(pos.get(t.a[0].a[0]))
        def model(e, s, i, name, args, rt):
            def onread(s2, k, p, n):
                n = e.known(s, n)
                return (k, s2.ts[1] + (cv(n) if isc(n) else 'n',) if len(s2.ts[1]) < len(want) else s2.ts[1])
            if stream.is_read(e, name): pos.setdefault(i['i'], len(s.ts[1]))
            return stream.call(e, s, i, name, args, rt, kinds='', onread=onread)
        r = c.run('e_Trace_read', cfg='nomap', model=model, ts0=('G', ()), oracle=oracle, unroll=8)
        seqs = {ev.state.ts[1] for ev in r.events if ev.state.ts and len(ev.state.ts[1]) == len(want)}
        if not seqs: c.unknown('header', 'the header is not followed'); continue
        for q in seqs: c.check(list(q) == want, 'header', 'the reader takes %s for %d characters and %d types%s' % (list(q), nc, nt, '' if list(q) == want else ', the writer emits %s' % want), anchor(r))
def anchor(r):
    for ev in r.events:
        if stream.is_read(r.e, ev.name): return ev.loc
    return '?'

def readtags(c, P, tag, fmt, tsz):
    """lengths read after the tag, before the next tag"""
    T = P.enum('trace_entry_tag'); F = P.enum('type_format')
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    first = None
    for b in P.get('e_TracePoint_read').blocks:
        for i in b:
            if i['o'] in ('call', 'invoke') and i.get('f') and lib.sig(P, i['f']).cls in stream.ISTREAM and lib.sig(P, i['f']).name in ('read', 'get'): first = first or i['i']
    out = set()
    def oracle(t):
        if t.op == 'in' and t.a[0].a[0] == first: return T[tag]
        if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and root(t.a[0]).a[0] is mk('cont0', A[4], 0):
            if t.a[1] == ff.off and t.a[2] == ff.sz: return F[fmt]
            if t.a[1] == fz.off and t.a[2] == fz.sz: return tsz
    def model(e, s, i, name, args, rt):
        def onread(s2, k, p, n):
            if i['i'] == first:
                if e.final and s2.ts[1] is not None: out.add(s2.ts[1])
                return (k, ())
            n = e.known(s, n)
            return (k, (s2.ts[1] or ()) + ((cv(n) if isc(n) else 'n'),))
        return stream.call(e, s, i, name, args, rt, kinds='', onread=onread)
    r = c.run('e_TracePoint_read', cfg='nomap', model=model, ts0=('G', None), oracle=oracle)
    if tag == 'END_ENTRY':
        for x in r.returns():
            if x.state.ts[1] is not None: out.add(x.state.ts[1])
    return out

def points(c, P):
    T = P.enum('trace_entry_tag'); F = P.enum('type_format')
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    vf, vz, vt = field(P, 'TraceVarInfo', 'getTypeFormat'), field(P, 'TraceVarInfo', 'getSize'), field(P, 'TraceVarInfo', 'getTypeIndex')
    tn, tt, tp = [field(P, 'Trace', g) for g in ('getNames', 'getTypes', 'getPoints')]
    cn, ct, cp = [mk('cont0', ptr(A[1], f.off), 0) for f in (tn, tt, tp)]
    ps, pd = field(P, 'TracePoint', 'getStatement'), field(P, 'TracePoint', 'getData')
    db, dv, da = [field(P, 'TracePointData', g) for g in ('getBufferSizes', 'getVars', 'getAux')]
    psz, nsz = ksz(c, 'TracePoint'), 32
    def data(pt): return mk('fwget', mk('cont0', ptr(pt, pd.off), 0))
    def point(k): return ptr(mk('vbeg', cp), k * psz)
    rt = {}
    for fmt, vs, ts in (('UNSIGNED', 4, 4), ('SIGNED', 8, 8), ('SIGNED', 2, 2), ('FLOAT', 8, 8), ('POINTER', 8, 8), ('BLOB', 6, 0), ('BLOB', 6, 6)):
        for nn, nt, counts in ((0, 1, [(1, 1, 1)]), (1, 2, [(0, 2, 0), (2, 0, 3)]), (2, 1, [(0, 0, 0)]), (3, 3, [])) if fmt == 'BLOB' and ts else ((0, 1, [(1, 1, 1)]),):
            conts = {cn: nn, ct: nt, cp: len(counts)}
            for k, (a, b, d) in enumerate(counts):
                D = data(point(k))
                conts[mk('cont0', ptr(D, db.off), 0)] = a; conts[mk('cont0', ptr(D, dv.off), 0)] = b; conts[mk('cont0', ptr(D, da.off), 0)] = d
            def oracle(t):
                if t.op == 'vsize': return conts.get(t.a[0])
                if t.op == 'vempty?': return None
                if t.op == 'mem0':
                    q = root(t.a[0])
                    if q.op == 'vbeg' and q.a[0] is ct and t.a[2] == 4:
                        o = (t.a[1]) % 12 if t.a[0] is q else t.a[1]
                        if o == fz.off: return ts
                    if q.op == 'fwget' and t.a[0] is q and root(q.a[0].a[0]).op == 'vbeg':
                        if t.a[1] == vf.off and t.a[2] == vf.sz: return F[fmt]
                        if t.a[1] == vz.off and t.a[2] == vz.sz: return vs
                        if t.a[1] == vt.off and t.a[2] == vt.sz: return 0
                return None
            hyp = '%d names, %d types, points %s, %s variables of %d bytes%s' % (nn, nt, counts, fmt, vs, ' (type of variable size)' if fmt == 'BLOB' and not ts else '')
            r = c.run('e_Trace_write', cfg='nomap', model=W, ts0=(), oracle=oracle, unroll=8)
            for x in r.returns():
                items = list(x.state.ts)
                if odd(items): c.unknown('entry', 'written with %s' % odd(items)[0][1][:40], odd(items)[0][2]); continue
                if not header(c, P, r, items, nn, nt, cn, ct, hyp): continue
                if not items and not counts: c.ok('entry')
                for k, (a, b, d) in enumerate(counts): entries(c, P, r, items, point(k), data(point(k)), a, b, d, fmt, vs, ts, rt, k, hyp)
                if counts: c.check(not items, 'entry', 'nothing but the points follows (%s)' % hyp, items[0][2] if items else '')
    # loops end at the last element only
    r = c.run('e_Trace_write', cfg='nomap')
    its = {it.cont: it for it in loops.iters(r) if it.kind == 'ptr'}
    for f, cont, sz in (('names', cn, None), ('types', ct, None), ('points', cp, None)): loops.cover(c, r, 'all-elements', 'all %s are written' % f, cont)
    cur = [it.phi for it in loops.iters(r) if it.cont is cp]
    idx = [it for it in loops.iters(r) if it.kind == 'idx']
    if cur:
        D = data(cur[0])
        for f, g in (('allocation records', db), ('variables', dv), ('auxiliary values', da)): loops.cover(c, r, 'all-elements', 'all %s of a point are written' % f, mk('cont0', ptr(D, g.off), 0))
    else: c.unknown('all-elements', 'loop over the points')

def ksz(c, cls):
    r = c.run('k_sizeof_%s' % cls)
    return cv(r.returns()[0].value)

def header(c, P, r, items, nn, nt, cn, ct, hyp):
    def need(cond, what, it=None):
        return c.check(cond, 'header', what + ' (%s)' % hyp, it[2] if it else '?')
    def strc(k): return mk('cont0', ptr(mk('vbeg', cn), 32 * k), 0)
    if not items: need(False, 'the number of characters of the names is written first'); return False
    n = items.pop(0)
    total = C(0)
    for k in range(nn): total = binop('add', 64, total, binop('add', 64, mk('slen', strc(k)), C(1)))
    if not need(n[0] == 8, 'the number of characters of the names is written first, in 8 bytes', n): return False
    v = r.e.known(x_state(r), n[1])
    lens = [mk('slen', strc(k)) for k in range(nn)]
    lin = linear(v)
    if lin is None: c.unknown('header', 'number of characters %r' % v, n[2])
    else: need(lin == (nn, {l: 1 for l in lens}), 'the number of characters counts all names and their terminators', n)
    for k in range(nn):
        if not items: need(False, 'all names are written', n); return False
        it = items.pop(0)
        ln = linear(it[0]) if isinstance(it[0], Term) else (it[0], {})
        if ln is None or it[1].op != 'at': c.unknown('header', 'name %d' % k, it[2]); return False
        p = it[1].a[0]
        if ln == (0, {lens[k]: 1}) and items and items[0][0] == 1 and isinstance(items[0][1], Term) and isc(items[0][1]) and cv(items[0][1]) == 0:
            items.pop(0); ln = (1, ln[1])        # terminator written separately
        if not need(ln == (1, {lens[k]: 1}), 'name %d is written with its terminator' % k, it): return False
        src = [y for y in closure(r.e, p) if y is strc(k)]
        need(bool(src), 'name %d is written in its place' % k, it)
    if not items: need(False, 'the number of types is written', n); return False
    t = items.pop(0)
    if not need(t[0] == 4, 'the number of types is written after the names, in 4 bytes', t): return False
    v = r.e.known(x_state(r), t[1])
    if isc(v): need(cv(v) == nt, 'the number of types is written', t)
    else: c.unknown('header', 'number of types %r' % v, t[2])
    fs = [field(P, 'TypeDescription', g) for g in ('getNameIndex', 'getTypeFormat', 'getSize')]
    seq = typeseq(c, P)
    for k in range(nt):
        for w, off in seq:
            if not items: need(False, 'all types are written', t); return False
            it = items.pop(0)
            ok = it[0] == w and (isc(it[1]) or it[1].op == 'mem0' and root(it[1].a[0]).op == 'vbeg' and root(it[1].a[0]).a[0] is ct and split(it[1].a[0])[1] + it[1].a[1] == 12 * k + off)
            if not need(ok, 'type %d is written like a single type' % k, it): return False
    return True
_ts = {}
def typeseq(c, P):
    """(width, offset in the object) of what a single type is written as"""
    if id(P) not in _ts:
        wr = c.run('e_TypeDescription_write', cfg='nomap', model=W, ts0=())
        _ts[id(P)] = [(it[0], it[1].a[1] if it[1].op == 'mem0' else None) for it in wr.returns()[0].state.ts]
        if any(o is None for w, o in _ts[id(P)]): _ts[id(P)] = [(w, o) for w, o in _ts[id(P)]]
    return _ts[id(P)]
def x_state(r): return r.returns()[0].state
def linear(t):
    """t as (constant, {term: coefficient}) or None"""
    if isinstance(t, int): return t, {}
    if isc(t): return cv(t), {}
    if t.op == 'add':
        x, y = linear(t.a[0]), linear(t.a[1])
        if x is None or y is None: return None
        m = dict(x[1])
        for k, v in y[1].items(): m[k] = m.get(k, 0) + v
        return (x[0] + y[0]) & (1 << 64) - 1, m
    if t.op == 'slen': return 0, {t: 1}
    return None

def entries(c, P, r, items, pt, D, a, b, d, fmt, vs, ts, rt, k, hyp):
    T = P.enum('trace_entry_tag'); inv = {v: n for n, v in T.items()}
    ps = field(P, 'TracePoint', 'getStatement')
    db, dv, da = [field(P, 'TracePointData', g) for g in ('getBufferSizes', 'getVars', 'getAux')]
    seen = {'STATEMENT_ID': 0, 'BUFFER_SIZE': 0, 'VARIABLE': 0, 'AUXILIARY': 0}
    want = {'STATEMENT_ID': 1, 'BUFFER_SIZE': a, 'VARIABLE': b, 'AUXILIARY': d}
    last = '?'
    while items:
        tag = items.pop(0); last = tag[2]
        if tag[0] != 1 or not isinstance(tag[1], Term) or not isc(tag[1]):
            c.bad('entry', 'an entry does not start with a one byte tag', tag[2]); items.clear(); return
        name = inv.get(cv(tag[1]))
        if name is None or name == 'INVALID_TAG': c.bad('entry', 'the tag %d is not one the reader knows' % cv(tag[1]), tag[2]); items.clear(); return
        if name not in rt: rt[name, fmt, ts] = readtags(c, P, name, fmt, ts)
        if (name, fmt, ts) not in rt: rt[name, fmt, ts] = readtags(c, P, name, fmt, ts)
        exp = rt[name, fmt, ts]
        if not exp: c.unknown('entry', 'what the reader takes after the tag %s' % name); items.clear(); return
        n = len(next(iter(exp)))
        got = [items[j] for j in range(min(n, len(items)))]
        sig = tuple(it[0] if isinstance(it[0], int) else 'n' for it in got)
        sg2 = tuple('n' if x == 'n' else x for x in sig)
        ok = any(len(x) == len(sg2) and all(u == v or 'n' in (u, v) for u, v in zip(x, sg2)) for x in exp)
        if not c.check(ok, 'entry', 'the entry %s is written with the widths %s' % (name, list(sig)) if ok else 'the entry %s is written with the widths %s, the reader takes %s (%s)' % (name, list(sig), [list(x) for x in exp], hyp), tag[2]): items.clear(); return
        del items[:n]
        if name == 'END_ENTRY':
            miss = [x for x in want if seen[x] != want[x]]
            if miss == ['STATEMENT_ID'] and seen['STATEMENT_ID'] > 1: miss = []
            c.check(not miss, 'entry', 'all entries of the point are written (%s)' % hyp if not miss else 'point %d is written with %s entries %s instead of %s' % (k, miss[0], seen[miss[0]], want[miss[0]]), tag[2])
            return
        j = seen[name]; seen[name] += 1
        # the element comes from the right place
        src = None
        for it in got:
            v = it[1]
            if isinstance(v, Term) and v.op == 'at': v = v.a[0]
            for t in subterms(v) if isinstance(v, Term) else ():
                if t.op == 'mem0': src = src or place(t, pt, D, ps, db, dv, da, c)
        if src is not None:
            good = {'STATEMENT_ID': ('statement', 0), 'BUFFER_SIZE': ('sizes', j), 'VARIABLE': ('vars', j), 'AUXILIARY': ('aux', j)}[name]
            c.check(src == good, 'entry', 'entry %d of kind %s comes from its element (%s)' % (j, name, hyp) if src == good else 'entry %d of kind %s is written from %s %d' % ((j, name) + src), tag[2])
        elif all(isc(it[1]) for it in got if isinstance(it[1], Term)) and got and not (fmt and name == 'VARIABLE'): c.bad('entry', 'the entry %s is written as a constant' % name, tag[2])
        if name == 'BUFFER_SIZE': c.check(not seen['VARIABLE'], 'entry', 'allocation records are written before the variables that refer to them', tag[2])
    c.bad('entry', 'the end of point %d is not written (%s)' % (k, hyp), last)
def place(t, pt, D, ps, db, dv, da, c):
    b, o = split(t.a[0])
    pb, po = split(pt)
    if b is pb and t.a[1] + o == po + ps.off and t.a[2] == ps.sz: return ('statement', 0)
    for nm, f, esz in (('sizes', db, 16), ('vars', dv, 8), ('aux', da, 8)):
        vb = mk('vbeg', mk('cont0', ptr(D, f.off), 0))
        x, xo = b, o + t.a[1]
        if b.op == 'fwget' and nm == 'vars':
            x, xo = split(b.a[0].a[0])
        if x is vb: return (nm, xo // esz)
    return None
