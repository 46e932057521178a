"""Stream typestate (good / at end / failed) carried through the readers, every read forking into success and failure. Obligations:
no read is issued on a stream that failed; no path on which a read of the name or type dictionary failed reaches a normal return of
the trace reader; no point is appended once the stream failed, and every point completed on a good stream is appended before the next
one is started or the reader returns; type formats, name and type references, value sizes and tags outside the accepted classes have
no normally returning path."""
from rules.common import *
import stream

RULES = {'read-on-failed-stream': 10, 'truncated-header': 1, 'truncated-point': 1, 'complete-point-kept': 1, 'reference-check': 3, 'size-class': 40, 'tag-class': 8}

def is_push(P, name, elem):
    sg = lib.sig(P, name)
    return sg.cls == 'std::vector' and sg.name in ('push_back', 'emplace_back') and sg.targs and lib.base_type(sg.targs[0]) == elem
def reach(fn, b0):
    seen = set(); st = list(fn.succ[b0])
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st += fn.succ[b]
    return seen
def is_point_data(P, name):
    sg = lib.sig(P, name)
    return sg.cls == 'boost::flyweights::flyweight' and sg.name == 'flyweight' and lib.base_type(sg.targs[0]) == 'TracePointData' and sg.params and not any('flyweight<TracePointData' in p for p in sg.params)
NAMES = re.compile(r'basic_string|string')

def check(c):
    P = c.prog('nomap')
    whole(c, P); references(c, P); sizes(c, P); tags(c, P)

def whole(c, P):
    fn = P.get('e_Trace_read')
    # reads from which the dictionaries can still grow
    hdr = set(); nhdr = 0
    push = {}
    for b, ins in enumerate(fn.blocks):
        for i in ins:
            if i['o'] in ('call', 'invoke') and i.get('f'):
                f = i['f']
                if is_push(P, f, 'TypeDescription') or is_push(P, f, 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>') : push.setdefault(b, []).append(i['i'])
    if not push: raise AnalysisError('the trace reader appends to no dictionary')
    for b, ins in enumerate(fn.blocks):
        r = None
        for k, i in enumerate(ins):
            if i['o'] in ('call', 'invoke') and i.get('f') and lib.sig(P, i['f']).cls in stream.ISTREAM and lib.sig(P, i['f']).name in ('read', 'get'):
                if r is None: r = reach(fn, b)
                if any(x in r for x in push) or any(x > i['i'] for x in push.get(b, ())): hdr.add(i['i'])
    if not hdr: raise AnalysisError('no read of the header found')
    # ts = (stream, class of the failed read, a completed point waits to be appended)
    late = []; lost = []
    def model(e, s, i, name, args, rt):
        def onread(s2, k, p, n):
            if e.final and s2.ts[0] == 'G' and s2.ts[2]: lost.append((i, 'the next point is started'))
            return (k, s2.ts[1] if s2.ts[0] != 'G' else ('H' if i['i'] in hdr else 'P') if k != 'G' else None, 0)
        r = stream.call(e, s, i, name, args, rt, onread=onread)
        if r is not None: return r
        if is_point_data(P, name):
            if e.final and s.ts[0] == 'G' and s.ts[2]: lost.append((i, 'the next point is completed'))
            r = e.default(s, i, name, args, rt)
            for k, s2, v in r:
                if k == 'ret' and s2.ts[0] == 'G': s2.ts = s2.ts[:2] + (1,)
            return r
        if is_push(P, name, 'TracePoint'):
            if e.final and s.ts[0] != 'G': late.append(i)
            r = e.default(s, i, name, args, rt)
            for k, s2, v in r:
                if k == 'ret': s2.ts = s2.ts[:2] + (0,)
            return r
        return None
    r = c.run('e_Trace_read', cfg='nomap', model=model, ts0=('G', None, 0))
    npush = 0
    for ev in r.events:
        if stream.is_read(r.e, ev.name):
            c.check(ev.state.ts[0] == 'G', 'read-on-failed-stream', 'read of %r bytes%s' % (ev.args[2] if len(ev.args) > 2 else 1, '' if ev.state.ts[0] == 'G' else ' although the stream has failed'), ev.loc)
        if is_push(P, ev.name, 'TracePoint'): npush += 1
    if not npush: raise AnalysisError('the trace reader appends no points')
    for i in late: c.bad('truncated-point', 'a point is appended although reading it failed', locstr(i))
    if not late: c.ok('truncated-point', npush, 'points are appended on a good stream only')
    for i, w in lost: c.bad('complete-point-kept', 'a completely read point is not appended before %s' % w, locstr(i))
    rets = r.returns()
    if not rets: raise AnalysisError('the trace reader never returns')
    for x in rets:
        st, cl, pend = x.state.ts
        if pend and st == 'G': c.bad('complete-point-kept', 'a completely read point is not appended before the reader returns', pushloc(r, P))
        else: c.ok('complete-point-kept')
        if st != 'G' and cl == 'H': c.bad('truncated-header', 'the reader returns normally although reading the name or type dictionary failed', hdrloc(fn, hdr))
        else: c.ok('truncated-header')
    for f in ('e_TracePoint_read', 'e_TracePoint_read3', 'e_TracePoint_read4', 'e_TraceVarInfo_read', 'e_TraceVarInfo_read3', 'e_TypeDescription_read', 'e_TypeDescription_readn', 'e_TraceBufferSize_read'):
        r = c.run(f, cfg='nomap', model=lambda *a: stream.call(*a), ts0=('G',))
        for ev in r.events:
            if stream.is_read(r.e, ev.name):
                c.check(ev.state.ts[0] == 'G', 'read-on-failed-stream', 'read of %r bytes%s' % (ev.args[2] if len(ev.args) > 2 else 1, '' if ev.state.ts[0] == 'G' else ' although the stream has failed'), ev.loc)
def pushloc(r, P):
    for ev in r.events:
        if is_push(P, ev.name, 'TracePoint'): return ev.loc
    return '?'
def hdrloc(fn, hdr):
    for b in fn.blocks:
        for i in b:
            if i['i'] in hdr: return locstr(i)
    return '?'

def good(r): return [x for x in r.returns() if x.state.ts[0] == 'G']
def M(e, s, i, name, args, rt): return stream.call(e, s, i, name, args, rt)

def references(c, P):
    F = P.enum('type_format'); lim = F['INVALID_FORMAT']
    def less(r, x, v, bound): return r.e.known(x.state, icmp('ult', v, bound)) is TRUE
    def le64(v): return cast('zext', 64, v)
    for fn in ('e_TypeDescription_read', 'e_TypeDescription_readn'):
        r = c.run(fn, cfg='nomap', model=M, ts0=('G',))
        for x in r.returns():
            f = field(P, 'TypeDescription', 'getTypeFormat').at(r.e, x.state, A[0])
            c.check(r.e.range(x.state, f)[1] < lim, 'reference-check', 'types are built only with a known format', anchor(r), repr(f))
            if fn.endswith('n'):
                n = field(P, 'TypeDescription', 'getNameIndex').at(r.e, x.state, A[0])
                c.check(less(r, x, le64(n), lib.vsize(mk('cont0', A[2], 0))) or less(r, x, n, cast('trunc', n.w, lib.vsize(mk('cont0', A[2], 0)))), 'reference-check', 'the name of a type lies inside the name dictionary', anchor(r), repr(n))
    # the types in a trace are read with the check
    r = c.run('e_TraceVarInfo_read', cfg='nomap', model=M, ts0=('G',))
    for x in r.returns():
        for g, k, what in (('getNameIndex', 2, 'name'), ('getTypeIndex', 3, 'type')):
            n = field(P, 'TraceVarInfo', g).at(r.e, x.state, A[0])
            c.check(less(r, x, le64(n), lib.vsize(mk('cont0', A[k], 0))) or less(r, x, n, cast('trunc', n.w, lib.vsize(mk('cont0', A[k], 0)))), 'reference-check', 'the %s of a variable lies inside the %s dictionary' % (what, what), anchor(r), repr(n))
def anchor(r):
    for ev in r.events:
        if stream.is_read(r.e, ev.name): return ev.loc
    return '?'

def sizes(c, P):
    F = P.enum('type_format'); inv = {v: k for k, v in F.items()}
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    classes = {'UNSIGNED': {1, 2, 4, 8}, 'SIGNED': {1, 2, 4, 8}, 'FLOAT': {4, 8}, 'POINTER': set(range(0, 9)), 'BLOB': None}
    for name in list(classes) + [None]:
        for sz in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 255, 256, 65536, 1 << 31, (1 << 32) - 1):
            fv = F[name] if name else F['INVALID_FORMAT']
            def oracle(t):
                if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and root(t.a[0]).a[0] is mk('cont0', A[3], 0):
                    if t.a[1] == ff.off and t.a[2] == ff.sz: return fv
                    if t.a[1] == fz.off and t.a[2] == fz.sz: return sz
                return None
            r = c.run('e_TraceVarInfo_read', cfg='nomap', model=M, ts0=('G',), oracle=oracle)
            ok = name is not None and (classes[name] is None or sz in classes[name])
            what = '%s variable of size %d' % (name or 'unknown format', sz)
            if name == 'POINTER' and sz < 8 and not r.returns(): c.ok('size-class'); continue      # stricter is fine
            if ok: c.check(good(r), 'size-class', what + ' is accepted', anchor(r))
            else: c.check(not r.returns(), 'size-class', what + (' is rejected' if not r.returns() else ' is accepted'), anchor(r))

def tags(c, P):
    T = P.enum('trace_entry_tag')
    valid = {v: k for k, v in T.items() if k != 'INVALID_TAG'}
    first = None
    for b in P.get('e_TracePoint_read').blocks:
        for i in b:
            if i['o'] in ('call', 'invoke') and i.get('f') and lib.sig(P, i['f']).cls in stream.ISTREAM and lib.sig(P, i['f']).name in ('read', 'get'): first = first or i['i']
    for t in sorted(set(range(0, 10)) | {15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 192, 200, 250, 251, 252, 253, 254, 255}):
        def oracle(x):
            if x.op == 'in' and x.a[2] == 1 and x.a[1] == 0 and x.a[0].a[0] == first: return t
        def model(e, s, i, name, args, rt):
            return stream.call(e, s, i, name, args, rt, onread=lambda s2, k, p, n: (k, 1 if k == 'G' else s2.ts[1]))
        r = c.run('e_TracePoint_read', cfg='nomap', model=model, ts0=('G', 0), oracle=oracle)
        g = good(r)
        if t in valid: 
            if valid[t] == 'END_ENTRY': c.check(g, 'tag-class', 'tag %d ends a point' % t, anchor(r))
            else: c.ok('tag-class')
        else:
            after = [ev for ev in r.events if stream.is_read(r.e, ev.name) and ev.state.ts[1]] + [x for x in r.returns() if x.state.ts[1]]
            c.check(not after, 'tag-class', 'unknown tag %d is rejected' % t if not after else 'reading goes on after the unknown tag %d' % t, after[0].loc if after else '')
