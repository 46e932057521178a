"""Abstract interpretation of the C entry points over traces of known shape (numbers of points, variables, auxiliary values, names, types;
everything else symbolic) with a model of the heap: sizes of blocks, every write, every release. The arrays handed out are read back from the
abstract heap and each member is compared with the accessor of the object it describes; sizes and counts are compared with the shape;
releasing functions are followed, recursion included, and every block must be released exactly once, with the deallocator that matches its
allocation, and not be used afterwards."""
from rules.common import *
from rules.shapes import *
from rules.carray import *
from rules import loops

RULES = {'points': 100, 'names': 8, 'counts': 4, 'release': 12, 'text': 3, 'results': 20}
KW = dict(exact=True, unroll=1 << 16, keyfn=facts, maxvisits=MAXV, nest=True, nothrow=True)

def check(c):
    loops.narrow_rule(c, c.prog(), ['get_points', 'get_names', 'get_types', 'query_trace', 'free_trace_points', 'free_c_predicate'], 'points', 'entries of an array')
    for f, rule in [(points, 'points'), (names, 'names'), (counts, 'counts'), (release, 'release'), (text, 'text'), (results, 'results')]:
        try: f(c)
        except AnalysisError as ex: c.unknown(rule, 'not analysed: %s' % ex)
def oob(c, r, rule, what):
    for x in r.exits:
        if x.kind == 'oob': c.bad(rule, '%s: element %d of %d is used' % (what, x.value.a[1] + 1, x.value.a[2]), x.loc); return True
    return False
def points(c):
    P = c.prog()
    for vs, aux in (([2, 1], [1, 2]), ([0], [0]), ([], []), ([1, 0, 3], [0, 3, 1]), ([2], [0]), ([0, 0], [2, 1]), ([300], [0]), ([1], [300]), ([1] * 40, [1] * 40)):
        sh = Points(P, A[0], vs, aux)
        what = 'points of a trace with %s variables and %s auxiliary values' % (brief(vs), brief(aux))
        try: r = c.run('get_points', init=sh.init, model=release_model, **{**KW, 'maxvisits': 1000 + 40 * (sum(vs) + sum(aux))})
        except AnalysisError as ex: c.unknown('points', '%s: %s' % (what, ex)); continue
        if oob(c, r, 'points', what): continue
        rets = r.returns()
        if not rets: c.bad('points', what + ': the function does not return', '%s:%s' % (P.get('get_points').f.get('file'), P.get('get_points').f.get('line'))); continue
        for x in rets:
            judge_points(c, P, r.e, x.state, x.value, sh, list(range(len(vs))), 'points', what, loc_of(r))
            for y in subterms(x.value):
                if released(x.state, y)[1]: c.bad('points', what + ': the array was released', x.loc)
def brief(l): return str(l) if len(l) < 8 else '%d times %d' % (len(l), l[0])
def loc_of(r):
    for ev in r.events:
        if ev.name in ('malloc', 'calloc', '_Znwm', '_Znam', 'realloc'): return ev.loc
    return r.exits[0].loc if r.exits else '?'
def names(c):
    P = c.prog()
    nf, tf = field(P, 'Trace', 'getNames'), field(P, 'Trace', 'getTypes')
    ni = field(P, 'TypeDescription', 'getNameIndex')
    for n in (0, 1, 3, 300):
        # get_names: n names; get_types: n types whose names are symbolic
        ns = [mk('name', i) for i in range(n)]
        def init(e, s):
            s.ver[ptr(A[0], nf.off)] = lib.vec(e, ns, 32)
            s.ver[ptr(A[0], tf.off)] = lib.vec(e, [make(P, 'TypeDescription', {}, i) for i in range(2 if n == 1 else 1)], P.records['TypeDescription']['s'])
        r = c.run('get_names', init=init, model=release_model, **KW)
        what = 'the names of a trace with %d names' % n
        if not oob(c, r, 'names', what): table(c, P, r, n, lambda i: mk('cstr', ns[i]), 'names', what)
        idx = [mk('nameidx', i, w=8 * ni.sz) for i in range(n)]
        two = [mk('name', i) for i in range(2 if n == 1 else 1)]
        def init2(e, s):
            s.ver[ptr(A[0], nf.off)] = lib.vec(e, two, 32)
            s.ver[ptr(A[0], tf.off)] = lib.vec(e, [make(P, 'TypeDescription', {ni.off: t}, i) for i, t in enumerate(idx)], P.records['TypeDescription']['s'])
        r = c.run('get_types', init=init2, model=release_model, **KW)
        what = 'the type names of a trace with %d types' % n
        base = lib.vbeg(lib.vec(r.e, two, 32))
        if not oob(c, r, 'names', what): table(c, P, r, n, lambda i: mk('cstr', mk('cont0', gep(base, 0, [(cast('zext', 64, idx[i]), 32)]), 0)), 'names', what)
def table(c, P, r, n, want, rule, what):
    if not r.returns(): c.bad(rule, what + ': the function does not return', '?'); return
    for ev in r.events:
        sg = lib.sig(P, ev.name)
        if sg.cls.startswith('std::__cxx11::basic_string') and sg.name in ('c_str', 'data') and any(y.op == 'alloca' for y in subterms(ev.args[0])):
            t = ev.res
            if any(v is t for x in r.returns() for b, cells in x.state.mem.items() if b.op == 'heap' for o, cell in cells.items() if isinstance(o, int) for v in (cell[1],)): c.bad(rule, what + ': an entry belongs to a temporary', ev.loc); return
    for x in r.returns():
        loc = loc_of(r)
        if n == 0: c.ok(rule, 1, what); continue
        if x.value.op != 'heap':
            if isc(x.value) or x.value.op in ('new', 'alloca'): c.bad(rule, what + ': not an array the caller can release', loc, repr(x.value))
            else: c.unknown(rule, what + ': %r' % (x.value,), loc)
            continue
        h = r.e.heap.get(x.value)
        if h is None or not isc(h): c.unknown(rule, what + ': size %r' % (h,), loc); continue
        if not c.check(cv(h) >= 8 * n, rule, what + (': room for all of them' if cv(h) >= 8 * n else ': %d bytes for %d entries' % (cv(h), n)), loc): continue
        for b, o, m in stray(r.e, x.state): c.bad(rule, '%s: a write at offset %d of a block of %d bytes' % (what, o, m), loc)
        for i in range(n):
            g = r.e.load(x.state, ptr(x.value, 8 * i), 8, 64); w = want(i)
            if g is w: c.ok(rule, 1, what + ': entry %d' % i)
            elif g.op in ('uninit', 'c'): c.bad(rule, what + ': entry %d is not set' % i, loc)
            elif g.op == 'cstr' and w.op == 'cstr' and (g.a[0].op in ('name', 'cont0') and 'alloca' not in repr(g)): c.bad(rule, what + ': entry %d is another name' % i, loc, '%r instead of %r' % (g, w))
            elif g.op == 'cstr' and any(y.op == 'alloca' for y in subterms(g)): c.bad(rule, what + ': entry %d belongs to a temporary' % i, loc, repr(g))
            else: c.unknown(rule, what + ': entry %d: %r' % (i, g), loc)
def counts(c):
    P = c.prog()
    for fn, cls, g, esz in (('n_names', 'Trace', 'getNames', 32), ('n_types', 'Trace', 'getTypes', P.records['TypeDescription']['s']), ('trace_size', 'Trace', 'getPoints', P.records['TracePoint']['s']), ('n_traces', 'TraceDB', 'getTraces', P.records['Trace']['s'])):
        f = field(P, cls, g)
        for n in (0, 1, 5, 70000):
            if n < 100:
                def init(e, s): s.ver[ptr(A[0], f.off)] = lib.vec(e, [mk('el', i) for i in range(n)], esz)
                r = c.run(fn, init=init, model=release_model, **KW)
                for x in r.returns():
                    if isc(x.value): c.check(cv(x.value) == n, 'counts', '%s with %d' % (fn, n) + ('' if cv(x.value) == n else ' gives %d' % cv(x.value)), x.loc)
                    else: c.unknown('counts', '%s: %r' % (fn, x.value), x.loc)
            else:
                r = c.run(fn, model=release_model, **KW)
                for x in r.returns():
                    t = x.value; w = t.w
                    n0 = mk('vsize', mk('cont0', ptr(A[0], f.off), 0))
                    while t.op in ('zext', 'trunc'): w = min(w, t.a[0].w if t.op == 'zext' else t.w); t = t.a[0]
                    if t is n0: c.check(w >= 32, 'counts', '%s for many' % fn + ('' if w >= 32 else ': the number is cut to %d bits' % w), x.loc)
                    else: c.unknown('counts', '%s: %r' % (fn, x.value), x.loc)
# ------------------------------------------------------------------------------------------------ releasing
def after_free(c, r, rule, what):
    """reads or writes of a block that was released before"""
    for ev in r.events:
        if ev.name not in ('!load', '!store', '!memcpy', 'free', '_ZdlPv', '_ZdlPvm'): continue
        if ev.name in ('free', '_ZdlPv', '_ZdlPvm'): continue
        for a in ev.args[:2 if ev.name == '!memcpy' else 1]:
            b = split(a)[0]
            if released(ev.state, b)[1]: c.bad(rule, what + ': a block is used after it was released', ev.loc, repr(a))
def judge_release(c, r, x, rule, what, want, how, loc, only=True):
    for p, name in want:
        k, n = released(x.state, p)
        z = r.e.known(x.state, icmp('eq', p, C(0)))
        if n == 0 and isc(z) and cv(z): continue
        if n == 1 and k == how: c.ok(rule, 1, '%s: %s is released once' % (what, name))
        elif n < 0: c.unknown(rule, '%s: how often %s is released' % (what, name), loc)
        elif n == 1: c.bad(rule, '%s: %s is released with %s, but it was allocated for %s' % (what, name, k, how), loc)
        else: c.bad(rule, '%s: %s is released %d times' % (what, name, n), loc)
    ps = {p for p, _ in want}
    for t, v in x.state.ver.items() if only else ():
        if t.op == 'released' and t.a[0] not in ps and root(t.a[0]).op not in ('new', 'heap', 'alloca'):
            c.bad(rule, '%s: something else is released' % what, loc, repr(t.a[0]))
def release(c):
    P = c.prog()
    ps = P.records['c_trace_point_struct']['s']; m = members(P, 'c_trace_point_struct')
    for n in (0, 1, 3, 40):
        what = 'releasing an array of %d points' % n
        blocks = {(i, f): mk('blk', i, f) for i in range(n) for f in ('vars', 'aux')}
        def init(e, s):
            for (i, f), b in blocks.items(): e.store(s, ptr(A[0], i * ps + m[f]['off']), 8, b)
        r = c.run('free_trace_points', init=init, args={1: C(n)}, model=release_model, **KW)
        if not r.returns(): c.bad('release', what + ': the function does not return', '?'); continue
        for x in r.returns():
            z = r.e.known(x.state, icmp('eq', A[0], C(0)))
            if isc(z) and cv(z): continue
            judge_release(c, r, x, 'release', what, [(A[0], 'the array')] + [(b, '%s of point %d' % (f, i)) for (i, f), b in blocks.items()], 'free', x.loc)
        after_free(c, r, 'release', what)
    predicates(c, P)
    for fn, cls, g in (('free_db', 'TraceDB', 'getTraces'), ('free_trace', 'Trace', 'getPoints')):
        r = c.run(fn, model=release_model, keyfn=lambda e, b, s: released(s, A[0]))
        what = {'free_db': 'releasing a database', 'free_trace': 'releasing a trace'}[fn]
        live = [x for x in r.returns() if not is_null(r, x)]
        if not live: c.unknown('release', what + ': no path'); continue
        for x in live: judge_release(c, r, x, 'release', what, [(A[0], 'the object')], 'delete', x.loc, only=False)
        dt = [ev for ev in r.events if lib.sig(P, ev.name).name.startswith('~vector') or lib.sig(P, ev.name).name == '~vector']
        f = field(P, cls, g)
        n = sum(1 for ev in dt if ev.args and ev.args[0] is ptr(A[0], f.off))
        c.check(n == 1, 'release', what + (': its parts are destroyed' if n == 1 else ': its parts are destroyed %d times' % n), live[0].loc)
    # what is handed out is allocated for the function that releases it
    for fn, op in (('create_db', 'new'), ('read_trace', 'new'), ('deserialize_trace_db', 'new')):
        r = c.run(fn, model=nolock)
        for x in r.returns():
            vs = sources(r.e, x.value)
            for v in vs:
                if isc(v) and cv(v) == 0: continue
                b = split(v)[0]
                if b.op == op: c.ok('release', 1, fn + ': allocated with new')
                elif b.op in ('heap', 'alloca'): c.bad('release', fn + ': the object is not allocated with new, but it is released with delete', x.loc, repr(v))
                elif b.op == 'ev': c.unknown('release', '%s: %r' % (fn, v), x.loc)
def is_null(r, x):
    z = r.e.known(x.state, icmp('eq', A[0], C(0)))
    return isc(z) and cv(z) == 1
def predicates(c, P):
    """trees of known shape: a leaf is its kind, an inner node the list of its children"""
    K = P.enum('predicate_kind'); rec = P.records['c_predicate']; m = members(P, 'c_predicate')
    leaf = ['VAR_REFERENCE', 'UNSIGNED_VALUE', 'SIGNED_VALUE', 'FLOAT_VALUE']
    trees = [('AND', ['VAR_REFERENCE', 'SIGNED_VALUE']), ('OR', [('NOT', ['FLOAT_VALUE']), ('EQUAL', ['UNSIGNED_VALUE', 'VAR_REFERENCE'])]), ('NOT', [('NOT', [('NOT', ['SIGNED_VALUE'])])]), ('AND', [('EQUAL', ['VAR_REFERENCE'] * 2)] * 3)] + leaf
    for kind in K:
        if kind not in leaf and kind != 'NULL_PREDICATE': trees.append((kind, ['VAR_REFERENCE', 'SIGNED_VALUE']))
    for t in trees:
        blocks = []
        def put(e, s, base, t, path):
            kind, ch = (t, []) if isinstance(t, str) else t
            if kind not in K: raise AnalysisError('predicate kind %s not found' % kind)
            e.store(s, ptr(base, m['kind']['off']), 4, C(K[kind], 32))
            if isinstance(t, str):
                e.store(s, ptr(base, m['n_children']['off']), 8, C(0)); e.store(s, ptr(base, m['children']['off']), 8, C(0)); return
            e.store(s, ptr(base, m['n_children']['off']), 8, C(len(ch)))
            b = mk('blk', path, w=64)
            if b not in blocks: blocks.append(b)
            e.store(s, ptr(base, m['children']['off']), 8, b)
            for j, x in enumerate(ch): put(e, s, ptr(b, j * rec['s']), x, path + '.%d' % j)
        def init(e, s): 
            put(e, s, A[0], t, 'p'); e.assume(s, icmp('eq', A[0], C(0)), 0)
        what = 'releasing a predicate %s' % shown(t)
        r = c.run('free_c_predicate', init=init, model=release_model, **KW)
        if not r.returns(): c.bad('release', what + ': the function does not return', '?'); continue
        for x in r.returns(): judge_release(c, r, x, 'release', what, [(A[0], 'the predicate')] + [(b, 'an array of operands') for b in blocks], 'free', x.loc)
        after_free(c, r, 'release', what)
    r = c.run('free_c_predicate', args={0: C(0)}, model=release_model, **KW)
    bad = [ev for ev in r.events if ev.name in ('!load', '!store') and isc(split(ev.args[0])[0])]
    c.check(not bad and bool(r.returns()), 'release', 'releasing a missing predicate does nothing', bad[0].loc if bad else '?')
def shown(t): return t if isinstance(t, str) else '%s(%s)' % (t[0], ', '.join(shown(x) for x in t[1]))
def text(c):
    """serialize_trace_db hands out the whole text, terminated"""
    P = c.prog()
    r = c.run('serialize_trace_db', model=nolock)
    for x in r.returns():
        v = x.value; loc = loc_of(r)
        if v.op != 'heap':
            if v.op in ('cstr', 'alloca', 'new') or isc(v): c.bad('text', 'the serialized text is not a block the caller can release', loc, repr(v))
            else: c.unknown('text', 'serialized text: %r' % (v,), loc)
            continue
        c.ok('text', 1, 'allocated with malloc')
        h = r.e.heap.get(v)
        cps = [ev for ev in r.events if ev.name in ('memcpy', 'memmove', '!memcpy', '!memcpyn', 'strcpy', 'strncpy') and ev.args and ev.args[0] is v]
        if len(cps) != 1: c.unknown('text', 'how the text is copied', loc); continue
        src = cps[0].args[1]
        if src.op != 'cstr': c.unknown('text', 'source of the text %r' % (src,), loc); continue
        n = mk('slen', src.a[0])
        if cps[0].name == 'strcpy': got = binop('add', 64, n, C(1))
        else: got = cps[0].args[2]
        d1, d2 = lib_diff(h, n), lib_diff(got, n)
        if d1 is None or d2 is None: c.unknown('text', 'sizes %r and %r' % (h, got), loc); continue
        c.check(d2 >= 1, 'text', 'the text is copied with its terminator' if d2 >= 1 else 'the text is copied without its terminator or in part', cps[0].loc)
        c.check(d1 >= d2, 'text', 'the block has room for what is copied' if d1 >= d2 else 'the block is smaller than what is copied', cps[0].loc)
def lib_diff(a, n):
    d = binop('sub', 64, a, n)
    return sgn(cv(d), 64) if isc(d) else None
def results(c):
    """a query hands out the number of its results and the array of them"""
    P = c.prog('dd')
    query(c, P, 'results')
class Query:
    """query_trace with the results of Trace::query given"""
    def __init__(self, c, P, vs, aux, keep, distinct=False):
        self.c = c; self.P = P; self.sh = Points(P, A[0], vs, aux); self.keep = keep; self.calls = []; self.hashes = []
        self.out, self.nout = A[11], A[12]; self.distinct = distinct
        self.tr = field(P, 'TraceDB', 'getTraces')
    def init(self, e, s):
        P = self.P; sh = self.sh
        for k in range(len(sh.pts)):
            s.ver[ptr(mk('fwget', sh.data[k]), sh.D['vars'].off)] = lib.vec(e, sh.vars[k], 8)
            s.ver[ptr(mk('fwget', sh.data[k]), sh.D['aux'].off)] = lib.vec(e, sh.aux[k], 8)
        sh.base = None
    def model(self, e, s, i, name, args, rt):
        P = self.P; sh = self.sh
        q = P.qual.get(name, name)
        if re.match(r'Trace::query\|', q):
            sh.base = args[1]
            r = P.records['TracePoint']
            s.ver[args[0]] = lib.vec(e, [make(P, 'TracePoint', {sh.K.off: sh.cnt[k], sh.S.off: sh.st[k], sh.DF.off: sh.data[k]}, k) for k in range(len(sh.pts))], r['s'])
            if e.final: self.calls.append((s.copy(), args))
            return [('ret', s, None)]
        if name == '__model_hash':
            if e.final: self.hashes.append((s.copy(), args[0], i))
            return [('ret', s, None)]
        return release_model(e, s, i, name, args, rt)
    def run(self):
        a = {3: C(0, 32), 4: C(0), 6: C(0, 32), 8: C(self.keep, 8)}
        return self.c.run('query_trace', cfg='dd', init=self.init, args=a, model=self.model, **{**KW, 'maxvisits': 40000})
def query(c, P, rule):
    for vs, aux in (([], []), ([1], [1]), ([2, 0], [0, 2]), ([1, 1, 1], [1, 1, 1])):
        q = Query(c, P, vs, aux, 1)
        what = 'a query with %d results' % len(vs)
        r = q.run()
        if oob(c, r, rule, what): continue
        for x in r.returns():
            n = r.e.load(x.state, q.nout, 8, 64)
            if isc(n): c.check(cv(n) == len(vs), rule, what + (': their number' if cv(n) == len(vs) else ': their number is given as %d' % cv(n)), x.loc)
            elif n.op in ('mem0', 'uninit'): c.bad(rule, what + ': their number is not given', x.loc, repr(n)); continue
            else: c.unknown(rule, what + ': number %r' % (n,), x.loc); continue
            if q.sh.base is None: c.unknown(rule, what + ': the trace queried'); continue
            judge_points(c, P, r.e, x.state, r.e.load(x.state, q.out, 8, 64), q.sh, list(range(len(vs))), rule, what, loc_of(r))
