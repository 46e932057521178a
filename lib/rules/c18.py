"""Scripted abstract interpretation of the readers: the input has a known shape (tags and number of points), all values are symbolic.
For limits 0 to 4 (and through the C interface) and inputs of 0 to 4 complete points (whole or cut within the next) the resulting point
list must be exactly the first min(limit, complete) points with counters 0, 1, ...; for every sequence of up to three entries a point
must hold the last statement id and its variables, allocation records and auxiliary values in input order. Beyond the scripts, over the
unbounded loops: the reader is left on a good stream only because the limit is reached, the counter of a point grows by one per appended
point without wrapping, and every entry read is appended before the next tag is read."""
from rules.common import *
from rules.script import Script, Odd
from rules.c02 import is_push
import stream, itertools

RULES = {'limit': 20, 'counter': 5, 'entry-order': 60, 'no-early-stop': 2, 'entry-kept': 3}

items = lib.elems
def check(c):
    P = c.prog('nomap')
    for f in (limits, entries, unbounded):
        try: f(c, P)
        except Odd as ex: c.unknown('limit', 'input is read in pieces of another size', str(ex))

class Tags:
    def __init__(self, P):
        t = P.enum('trace_entry_tag')
        self.I, self.V, self.B, self.A, self.E = [t[x] for x in ('STATEMENT_ID', 'VARIABLE', 'BUFFER_SIZE', 'AUXILIARY', 'END_ENTRY')]
def limits(c, P):
    T = Tags(P)
    pf = field(P, 'Trace', 'getPoints'); kf = field(P, 'TracePoint', 'getCounter'); sf = field(P, 'TracePoint', 'getStatement')
    for n, cut in [(n, 0) for n in range(5)] + [(n, k) for n in (0, 2) for k in (1, 2)]:
        S = [(8, 0), (4, 0)]
        for k in range(n): S += [(1, T.I), (8, 's%d' % k), (1, T.E)]
        S += [(1, T.I), (8, 'cut')][:cut]
        for M in (0, 1, 2, 3, 4, (1 << 32) + 1):
            for fn, arg in (('e_Trace_read', 2),) + ((('read_trace', 2), ('add_trace', 3)) if n == 3 and cut == 0 else ()):
                sc = Script(S); added = []
                def model(e, s, i, name, args, rt):
                    if e.final and is_push(P, name, 'Trace'): added.append(pf.at(e, s, args[1]))
                    return sc.model(e, s, i, name, args, rt)
                r = c.run(fn, cfg='nomap', model=model, ts0=('G', 0), args={arg: C(M)})
                want = min(M, n) if M else n
                what = '%s of %d points%s with limit %d' % (fn.replace('e_Trace_read', 'reading'), n, ' and a partial one' if cut else '', M)
                res = []
                if fn == 'add_trace': res = [(v, None) for v in added]
                else:
                    for x in r.returns():
                        base = A[0]
                        if fn == 'read_trace':
                            if x.value is None or isc(x.value): continue
                            base = x.value
                        res.append((pf.at(r.e, x.state, base), x))
                if not res and cut and (M == 0 or M > n): c.ok('limit', 1, what + ' is refused'); continue
                if not res:
                    if fn != 'e_Trace_read' or [ev for ev in r.events if is_push(P, ev.name, 'TracePoint')]: c.unknown('limit', what + ': no trace is returned')
                    else: c.bad('limit', what + ': no trace is returned', where(r, P))
                    continue
                for v, x in res:
                    ps = items(v)
                    if ps is None:
                        if v.op in ('vempty', 'cont0', 'mem0'): c.bad('limit', what + ' does not give %d points' % want, where(r, P), repr(v))
                        else: c.unknown('limit', what, where(r, P))
                        continue
                    got = [lib.part(P, p, sf.off, sf.sz) for p in ps]; cnt = [lib.part(P, p, kf.off, kf.sz) for p in ps]
                    if any(p is None for p in got + cnt): c.unknown('limit', what + ': %r' % (ps,)); continue
                    exp = [mk('rd', 3 + 3 * k, 's%d' % k, w=64) for k in range(want)]
                    if len(got) == len(exp) and all(a is b for a, b in zip(got, exp)): c.ok('limit', 1, what)
                    elif any(g.op not in ('rd', 'c') for g in got): c.unknown('limit', what + ': %r' % (got,), where(r, P))
                    else: c.bad('limit', what + (' gives %d points instead of %d' % (len(got), want) if len(got) != want else ' does not give the first %d points in order' % want), where(r, P), repr(got))
                    for k, t in enumerate(cnt):
                        if isc(t): c.check(cv(t) == k, 'counter', 'point %d has counter %d' % (k, cv(t)), where(r, P))
                        else: c.unknown('counter', 'counter %r' % (t,), where(r, P))
def where(r, P):
    for ev in r.events:
        if is_push(P, ev.name, 'TracePoint'): return ev.loc
    for ev in r.events:
        if not ev.loc.startswith('?'): return ev.loc
    return '?'

def entries(c, P):
    T = Tags(P)
    F = P.enum('type_format')
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    sf = field(P, 'TracePoint', 'getStatement'); df = field(P, 'TracePoint', 'getData')
    B = fields(P, 'TraceBufferSize'); V = {f.name: f for f in fields(P, 'TraceVarInfo')}
    def oracle(t):
        if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and root(t.a[0]).a[0] is mk('cont0', A[4], 0):
            if t.a[1] == ff.off and t.a[2] == ff.sz: return F['UNSIGNED']
            if t.a[1] == fz.off and t.a[2] == fz.sz: return 8
    seqs = []
    for n in range(0, 5 if c.tier == 'thorough' else 4): seqs += list(itertools.product('IVBA', repeat=n))
    seqs += [tuple(x) for x in ('IVVBBAAI', 'AAAAA', 'VVVVV', 'BBBBB', 'IABVIABV')]
    for q in seqs:
        S = []; last = C(0); vs = []; bs = []; au = []
        for j, t in enumerate(q):
            S.append((1, getattr(T, t)))
            def sym(n, l): S.append((n, l)); return mk('rd', len(S) - 1, l, w=8 * n)
            if t == 'I': last = sym(8, 'id')
            elif t == 'A': au.append(sym(8, 'aux'))
            elif t == 'B': bs.append((sym(8, 'address'), sym(8, 'size')))
            else: vs.append((sym(4, 'name'), sym(4, 'type'), sym(8, 'value')))
        S.append((1, T.E))
        sc = Script(S)
        r = c.run('e_TracePoint_read', cfg='nomap', model=sc.model, ts0=('G', 0), oracle=oracle, keyfn=rdfacts)
        what = 'a point with entries %s' % (' '.join({'I': 'id', 'V': 'variable', 'B': 'size', 'A': 'aux'}[t] for t in q) or '(none)')
        loc = stmtloc(r)
        if not r.returns(): c.unknown('entry-order', what + ' is not read', loc); continue
        for x in r.returns():
            if x.state.ts[1] < len(S): continue
            st = sf.at(r.e, x.state, A[0])
            cmp(c, r, x, 'entry-order', st, last, what + ': the last statement id is kept', loc)
            D = pointdata(P, df.at(r.e, x.state, A[0]))
            if D is None: c.unknown('entry-order', what + ': %r' % (df.at(r.e, x.state, A[0]),), loc); continue
            seq(c, items(D['aux']), au, lambda t, w: t is w, what + ': auxiliary values in order', loc, D['aux'])
            seq(c, items(D['buffersizes']), bs, lambda t, w: all(lib.part(P, t, f.off, f.sz) is y for f, y in zip(B, w)), what + ': allocation records in order', loc, D['buffersizes'])
            def var(t, w):
                t = unfly(t)
                g = [lib.part(P, t, V[n].off, V[n].sz) for n in ('nameindex', 'typeindex', 'value')]
                return None if None in g else all(x is y for x, y in zip(g, w))
            seq(c, items(D['vars']), vs, var, what + ': variables in order', loc, D['vars'])
def unfly(t):
    while t.op in ('fwmk', 'fwget') and len(t.a) <= 2: t = t.a[-1]
    return t
def pointdata(P, d):
    """the parts of point data"""
    d = unfly(d)
    fs = fields(P, 'TracePointData')
    if d.op == 'fwmk' and len(d.a) == 1 + len(fs): return dict(zip([f.name for f in fs], d.a[1:]))
    if d.op == 'obj':
        g = {f.name: lib.part(P, d, f.off) for f in fs}
        return None if None in g.values() else g
    return None
def cmp(c, r, x, rule, got, want, what, loc):
    if got is want or r.e.known(x.state, icmp('eq', got, want)) is TRUE: c.ok(rule, 1, what)
    elif got.op in ('rd', 'c', 'uninit'): c.bad(rule, what + ': it is not', loc, '%r instead of %r' % (got, want))
    else: c.unknown(rule, what + ': %r' % (got,), loc)
def seq(c, got, want, f, what, loc, t):
    if got is None: c.unknown('entry-order', what + ': %r' % (t,), loc); return
    if len(got) != len(want): c.bad('entry-order', what + ': %d instead of %d' % (len(got), len(want)), loc); return
    if not got: c.ok('entry-order', 1, what); return
    r = [f(g, w) for g, w in zip(got, want)]
    if all(r): c.ok('entry-order', 1, what)
    elif any(x is None for x in r): c.unknown('entry-order', what + ': %r' % (got,), loc)
    else: c.bad('entry-order', what + ': they are not', loc, repr(got))
def rdfacts(e, b, s):
    """paths that compared input values are kept apart"""
    return tuple(sorted((t.id, v.id) for t, v in s.facts.items() if t.op == 'icmp' and any(isinstance(y, Term) and y.op == 'rd' and y.w == 64 for y in t.a[1:])))
def stmtloc(r):
    for ev in r.events:
        if stream.is_read(r.e, ev.name): return ev.loc
    return '?'

def unbounded(c, P):
    T = Tags(P)
    cf = field(P, 'TracePoint', 'getCounter')
    # the reader stops on a good stream only for the limit
    for M in (0, 1 << 40):
        r = c.run('e_Trace_read', cfg='nomap', model=lambda *a: stream.call(*a), ts0=('G',), args={2: C(M)})
        for x in r.returns():
            if x.state.ts[0] != 'G': continue
            if any(t.op == 'phi' and t.w == 64 and r.e.range(x.state, t)[0] >= (1 << 64) - 2 for t in set(x.state.env.values()) | {y for f in x.state.facts for y in subterms(f)}): continue
            if M == 0: c.bad('no-early-stop', 'without a limit the reader can stop before the end of the input', where(r, P), repr(dict(list(x.state.facts.items())[:6]))); continue
            for t, v in x.state.facts.items():
                if t.op == 'icmp' and t.a[0] == 'ult' and isc(t.a[2]) and t.a[1].op == 'phi' and v is FALSE and cv(t.a[2]) < M and t.a[1].w == 64 and counts(r, P, t.a[1]):
                    c.bad('no-early-stop', 'with a limit of 2^40 the reader can stop after %d points' % cv(t.a[2]), where(r, P))
        c.ok('no-early-stop')
        # the counter
        for ev in r.events:
            if not is_push(P, ev.name, 'TracePoint'): continue
            t = cf.at(r.e, ev.state, ev.args[1])
            cl = closure(r.e, t)
            nar = [y for y in cl if y.op in ('trunc', 'zext', 'and') and y.w is not None]
            if any(y.op in ('trunc', 'zext') and min(y.w, y.a[0].w or 64) < 64 and any(z.op == 'phi' for z in closure(r.e, y)) for y in nar): c.bad('counter', 'the counter of a point wraps before 2^64 points', ev.loc, repr(t))
            elif t.op == 'phi' and counts(r, P, t): c.ok('counter', 1, 'counter grows by one')
            elif isc(t): c.bad('counter', 'every point has counter %d' % cv(t), ev.loc)
            else: c.unknown('counter', 'counter %r' % (t,), ev.loc)
    # every entry read is appended
    first = None
    for b in P.get('e_TracePoint_read').blocks:
        for i in b:
            if i['o'] in ('call', 'invoke') and i.get('f') and lib.sig(P, i['f']).cls in stream.ISTREAM and lib.sig(P, i['f']).name in ('read', 'get'): first = first or i['i']
    for tag, what, el in (('V', 'variable', 'boost::flyweights::flyweight'), ('B', 'allocation record', 'TraceBufferSize'), ('A', 'auxiliary value', 'unsigned long')):
        lost = []
        def model(e, s, i, name, args, rt):
            sg = lib.sig(P, name)
            if sg.cls in stream.ISTREAM and sg.name in ('read', 'get') and i['i'] == first:
                if e.final and s.ts[1] == 2: lost.append(i)
                s.ts = (s.ts[0], 1)     # an entry is being read
            elif sg.cls in stream.ISTREAM and sg.name in ('read', 'get') and s.ts[1] == 1:
                return stream.call(e, s, i, name, args, rt, onread=lambda s2, k, p, n: (k, 2))
            elif sg.cls == 'std::vector' and sg.name in ('push_back', 'emplace_back') and sg.targs and lib.base_type(sg.targs[0]).startswith(el):
                s.ts = (s.ts[0], 0)
            return stream.call(e, s, i, name, args, rt)
        def oracle(x):
            if x.op == 'in' and x.a[2] == 1 and x.a[1] == 0 and x.a[0].a[0] == first: return getattr(T, tag)
        r = c.run('e_TracePoint_read', cfg='nomap', model=model, ts0=('G', 0), oracle=oracle)
        seen = [ev for ev in r.events if lib.sig(P, ev.name).cls == 'std::vector' and lib.sig(P, ev.name).name in ('push_back', 'emplace_back') and lib.base_type(lib.sig(P, ev.name).targs[0]).startswith(el)]
        if not seen: c.unknown('entry-kept', 'no %s is appended' % what); continue
        for i in lost: c.bad('entry-kept', 'a completely read %s is not appended before the next entry' % what, locstr(i))
        if not lost: c.ok('entry-kept', 1, 'every %s is appended' % what)
def counts(r, P, phi):
    src = r.e.phisrc.get(phi, ())
    return len(src) == 2 and any(isc(x) and cv(x) == 0 for x in src) and any(x.op == 'add' and phi in x.a[:2] and any(isc(y) and cv(y) == 1 for y in x.a[:2] if isinstance(y, Term)) for x in src)
