"""The C text of the embedded runtime is taken from the Lisp source (string constants, concatenated as the Lisp code does), compiled to the
compiler's intermediate representation (arguments of the variadic functions become events) and analysed like the library: the sequence of
bytes each function writes - for every format and size the instrumentation uses, for up to three variables, names and types - is compared
with the sequence of items the trace reader takes for that entry (width, order, and the field into which each item is read), as derived
from the reader of the current tree. Numbers of formats and tags must be the reader's; the lock must be held at every write of the
header and of a point, taken by the function that begins a point, released by the one that ends it and left alone by those between."""
import os, re
import build, engine, lisp, stream
from rules.common import *
from rules import c05

RULES = {'numbering': 9, 'entry': 20, 'header': 12, 'lock': 10, 'emitted-arguments': 2}
TEXTS = ('+write-trace-forward-declarations+', '+write-trace-implementation+', '+write-trace-initialization+')
FN = {'header': '__write_trace_header', 'id': '__write_trace_id', 'end': '__write_end_entry', 'vars': '__write_trace_variables', 'blobs': '__write_trace_blobs', 'buffer': '__write_buffer_size'}
PUT = ('fputc', 'putc', '_IO_putc', 'fputc_unlocked', 'putc_unlocked')

def constants():
    """string constants of the Lisp sources: name -> (text, file, line)"""
    from rules.c15 import sources
    defs = {}; forms = []
    for p in sources():
        rel = os.path.relpath(p, build.REPO)
        f = lisp.parse(open(p, encoding='utf-8', errors='replace').read())
        forms.append((rel, f))
        for x in lisp.walk(f):
            if len(x) >= 3 and isinstance(x[0], lisp.Sym) and x[0].split(':')[-1] in ('defconst', 'defconstant', 'defparameter', 'defvar', 'define-constant') and isinstance(x[1], lisp.Sym): defs[str(x[1])] = (x[2], rel, x.line)
    def val(x, d=0):
        if isinstance(x, lisp.Str): return str(x)
        if isinstance(x, lisp.Form):
            if x and str(x[0]) == 'concatenate': return cat(x[2:], d)
            if x and str(x[0]) in ('fmt', 'string+', 'strcat') and str(x[0]) != 'fmt': return cat(x[1:], d)
            return None
        if isinstance(x, lisp.Sym) and str(x) in defs and d < 8: return val(defs[str(x)][0], d + 1)
        return None
    def cat(l, d):
        vs = [val(x, d) for x in l]
        return None if None in vs else ''.join(vs)
    out = {}
    for n, (x, rel, line) in defs.items():
        v = val(x)
        if v is not None: out[n] = (v, rel, line)
    return out, forms

def formatted(t, args):
    """the directives ~a ~d ~s of a format string replaced one after the other"""
    it = iter(args)
    def r(m):
        if m.group(1) == '~': return '~'
        if m.group(1) == '%': return '\n'
        try: return next(it)
        except StopIteration: return '0'
    return re.sub(r'~([adsADS%~])', r, t)

def program(c):
    """-> Program of the runtime, names of enumerators"""
    cs, forms = constants()
    for n in TEXTS[:2]:
        if n not in cs: raise AnalysisError('the text %s was not found' % n)
    def text(n): return '#line %d "%s"\n%s\n' % (cs[n][2] + 1, cs[n][1], cs[n][0])
    t = text(TEXTS[0]) + text(TEXTS[1])
    enums = {e: re.findall(r'\b__GT_TRACEDB_(\w+)', re.sub(r'/\*.*?\*/', '', m)) for e, m in re.findall(r'enum\s+(\w+)\s*\{(.*?)\}', t, re.S)}
    t += '#line 1 "generated"\n'
    for e, ns in enums.items():
        for n in ns: t += 'int rt_enum_%s(void) { return __GT_TRACEDB_%s; }\n' % (n, n)
    have = {k: f for k, f in FN.items() if re.search(r'\b%s\s*\(' % f, t)}
    t += 'void rt_keep(void (*volatile *p)(void)) { %s }\n' % ' '.join('*p = (void (*)(void)) %s;' % f for f in have.values())
    for n in (0, 1, 2, 3):
        ps = ''.join(', uint32_t n%d, enum __type_format f%d, uint32_t s%d' % (k, k, k) for k in range(n))
        t += 'void rt_types_%d(void *out, void *lock%s) { __trace_type_description t[%d] = {%s}; __write_trace_header(out, lock, 0, 0, t, %d); }\n' % (n, ps, max(1, n), ', '.join('{n%d, f%d, s%d}' % (k, k, k) for k in range(n)) or '0', n)
    if TEXTS[2] in cs:
        t += '#define __GT_TRACEDB_ENTRY_POINT\n' + '#line %d "%s"\n' % (cs[TEXTS[2]][2] + 1, cs[TEXTS[2]][1])
        t += formatted(cs[TEXTS[2]][0], ['ENV', 'fopen(buffer, "w")', 'const char *names[] = {"a", "bc"}', 'const __trace_type_description types[] = {{0, __GT_TRACEDB_SIGNED, 4}}', '2', '1'])
    tool = build.irtool(); d = os.path.join(build.TOOL, 'runtime')
    k = build.h(t, build.rd(os.path.join(d, 'stdarg.h')), build.rd(os.path.join(d, 'rt.cfg')), os.path.basename(tool))
    out = os.path.join(build.B, 'ir-runtime-%s.json' % k)
    with build.Lock():
        if not os.path.exists(out):
            src = out + '.c'; open(src, 'w').write(t)
            try:
                build.cmd(['clang-18', '-w', '-std=gnu11', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-D_FORTIFY_SOURCE=0', '-I' + d, '-c', '-emit-llvm', src, '-o', out + '.bc'])
                build.cmd([tool, out + '.bc', os.path.join(d, 'rt.cfg'), out + '.tmp']); os.rename(out + '.tmp', out)
            finally:
                for x in (src, out + '.bc'):
                    if os.path.exists(x): os.remove(x)
    return engine.Program(out), enums, have, cs, forms

VA = 100
class TS(tuple): pass
def model(e, s, i, name, args, rt):
    """ts = (items, number of arguments fetched, their types, lock depth)"""
    items, nva, vt, lk = s.ts
    w = e.width(i.get('t')) if i.get('t') else None
    def item(it): s.ts = (items + (it + (locstr(i), lk),), nva, vt, lk)
    if len(items) > 300: raise AnalysisError('a writer does not stop')
    if name in PUT:
        item((1, cast('trunc', 8, e.known(s, args[0])), args[1])); return [('ret', s, mk('ev', i['i'], w=w) if w else None)]
    if name in ('fwrite', 'fwrite_unlocked'):
        z, n = e.known(s, args[1]), e.known(s, args[2])
        if isc(z) and isc(n):
            t = cv(z) * cv(n)
            if t and t <= 16: item((t, e.load(s, args[0], t, 8 * t), args[3]))
            elif t:
                p = args[0]
                if t % 4: item((t, mk('at', p), args[3]))
                else:
                    new = tuple((4, e.load(s, ptr(p, o), 4, 32), args[3], locstr(i), lk) for o in range(0, t, 4))
                    s.ts = (items + new, nva, vt, lk)
        else:
            k = n if isc(z) and cv(z) == 1 else z if isc(n) and cv(n) == 1 else binop('mul', 64, z, n)
            item((k, mk('at', args[0]), args[3]))
        return [('ret', s, args[2])]
    if name in ('fputs', 'fputs_unlocked'):
        item((mk('call', 'strlen', args[0]), mk('at', args[0]), args[1])); return [('ret', s, mk('ev', i['i'], w=w) if w else None)]
    if name in ('fflush', 'ferror', 'fileno', 'fflush_unlocked'): return [('ret', s, C(0, 32))]
    if name in ('fprintf', 'fputws', 'puts', 'printf', 'vfprintf', 'write', 'fseek', 'rewind', 'setvbuf'): item(('?', name, None)); return None
    if name == 'strlen': return [('ret', s, mk('call', 'strlen', args[0]))]
    if name == '__rt_va':
        s.ts = (items, nva + 1, vt + ((cv(args[0]), cv(args[1])),), lk)
        return [('ret', s, mk('arg', VA + nva))]
    if name in ('__rt_va_start', '__rt_va_end', '__rt_va_copy'): return [('ret', s, None)]
    if name == 'pthread_mutex_lock': s.ts = (items, nva, vt, lk + ((1, args[0], locstr(i)),)); return [('ret', s, C(0, 32))]
    if name == 'pthread_mutex_unlock': s.ts = (items, nva, vt, lk + ((-1, args[0], locstr(i)),)); return [('ret', s, C(0, 32))]
    return None
def depth(lk): return sum(x[0] for x in lk)

def rditems(c, P, rfn, oracle, cls):
    """what the reader takes: [(width or None, field)] in order"""
    rd = c.run(rfn, cfg='nomap', model=c05.R, ts0=('G', ()), oracle=oracle)
    fs = leaf_fields(P, cls); best = None
    for y in rd.returns():
        out = []
        for n, id_, l in y.state.ts[1]:
            got = None
            for f in fs:
                if f.kind != 'scalar': continue
                v = rd.e.load(y.state, ptr(A[0], f.off), f.sz, 8 * f.sz)
                if any(x.op == 'in' and x.a[0] is id_ for x in subterms(v)): got = got or f.name
            if got is None: got = 'value'     # bytes behind the value's pointer
            out.append((cv(n) if isc(n) else None, got))
        if best is None or len(out) > len(best): best = out
    return best

def check(c):
    R, enums, have, cs, forms = program(c)
    P = c.prog('nomap')
    T = P.enum('trace_entry_tag'); F = P.enum('type_format')
    at = '%s:%d' % (cs[TEXTS[0]][1], cs[TEXTS[0]][2])
    for n in sorted({x for l in enums.values() for x in l}):
        v = engine.run(R, 'rt_enum_' + n).returns()[0].value
        for E, what in ((F, 'format'), (T, 'tag')):
            if n in E and not n.startswith('INVALID'): c.check(isc(v) and cv(v) == E[n], 'numbering', 'the runtime writes the %s %s as the reader reads it (%d)' % (what, n, E[n]), at)
    S = lambda fn, args=None, oracle=None: run(c, R, fn, args, oracle)
    variables(c, R, P, S, T, F, have)
    header(c, R, P, S, have)
    rest(c, R, P, S, T, have)
    locks(c, R, S, have)
    setup(c, R, cs)
    emitted(c, forms)
def run(c, R, fn, args=None, oracle=None):
    c.fns.add(fn)
    return engine.run(R, fn, model=model, ts0=((), 0, (), ()), args=args, oracle=oracle, exact=True, unroll=8)

def seq(c, rule, what, x, want, out=A[0]):
    """compare the items written with those wanted: [(width, predicate on value, description)]"""
    items = x.state.ts[0]
    odd = [i for i in items if i[0] == '?']
    if odd: c.unknown(rule, '%s is written with %s' % (what, odd[0][1]), odd[0][3]); return False
    loc = items[-1][3] if items else x.loc
    items = coalesce(items, want)
    if len(items) != len(want) or any(not c05.eqlen(w(i[0]), w(g[0])) for i, g in zip(items, want)):
        tot = [i[0] for i in items]
        if all(isinstance(t, int) for t in tot) and all(isinstance(g[0], int) for g in want) and sum(tot) == sum(g[0] for g in want) and len(tot) != len(want): c.unknown(rule, '%s is written in other pieces (%s)' % (what, tot), loc); return False
        c.bad(rule, '%s: the runtime writes items of %s bytes, the reader takes %s' % (what, show(items), show(want)), loc); return False
    for i, g in zip(items, want):
        r = g[1](i[1])
        if r is None: c.unknown(rule, '%s: %s is %r' % (what, g[2], i[1]), i[3])
        elif not c.check(r, rule, '%s: %s is written where the reader takes it' % (what, g[2]), i[3], repr(i[1])): return False
        if i[2] is not None and i[2] is not out: c.check(False, rule, '%s: %s is written to the file given' % (what, g[2]), i[3], repr(i[2]))
    return True
def w(n): return C(n) if isinstance(n, int) else n
def show(l): return ' '.join(str(x[0]) if isinstance(x[0], int) else 'n' for x in l) or 'nothing'
def coalesce(items, want):
    """an item written as one block of several adjacent fields is split into the widths wanted"""
    out = []; k = 0; ws = [g[0] for g in want]
    for it in items:
        if isinstance(it[0], int) and isinstance(it[1], Term) and it[1].op != 'at' and k < len(ws) and isinstance(ws[k], int) and ws[k] < it[0]:
            o = 0; parts = []
            while o < it[0] and k < len(ws) and isinstance(ws[k], int) and o + ws[k] <= it[0]: parts.append((ws[k], piece(it[1], o, ws[k])) + it[2:]); o += ws[k]; k += 1
            if o == it[0]: out += parts; continue
            k -= len(parts)
        out.append(it); k += 1
    return out
def piece(v, o, n):
    if v.op == 'mix':
        for k, x in v.a[2]:
            if isinstance(x, Term) and k - v.a[1] == o and (x.w or 64) == 8 * n: return x
    return cast('trunc', 8 * n, binop('lshr', v.w or 64, v, C(8 * o, v.w or 64)) if o else v)

def va(k, sz): return mk('mem0', mk('arg', VA + k), 0, sz, 0, w=8 * sz)
def is_const(v): return lambda t: isc(t) and cv(t) == v or (False if t.op in ('c', 'mem0', 'trunc') else None)
def is_low(base, n):
    """the n low bytes of the argument at base, however wide it was fetched"""
    def f(t):
        x = t
        while x.op in ('trunc', 'zext', 'sext') : x = x.a[0]
        if x.op == 'mem0' and x.a[0] is base and x.a[1] == 0 and x.a[2] >= n: return True
        return False if x.op in ('c', 'mem0', 'arg', 'uninit', 'undef') else None
    return f
def variables(c, R, P, S, T, F, have):
    ff, fz = field(P, 'TypeDescription', 'getTypeFormat'), field(P, 'TypeDescription', 'getSize')
    def reader(fmt, sz):
        def ro(t):
            if t.op == 'mem0' and root(t.a[0]).op == 'vbeg' and root(t.a[0]).a[0] is mk('cont0', A[3], 0):
                if t.a[1] == ff.off and t.a[2] == ff.sz: return F[fmt]
                if t.a[1] == fz.off and t.a[2] == fz.sz: return sz
        return rditems(c, P, 'e_TraceVarInfo_read', ro, 'TraceVarInfo')
    KIND = {'UNSIGNED': 'i', 'SIGNED': 'i', 'FLOAT': 'f', 'POINTER': 'p'}
    CASES = [(f, z) for f, zs in (('UNSIGNED', (1, 2, 4, 8)), ('SIGNED', (1, 2, 4, 8)), ('FLOAT', (4, 8)), ('POINTER', (8,))) for z in zs]
    if 'vars' in have:
        rd = {k: reader(*k) for k in CASES}
        combos = [()] + [(k,) for k in CASES] + [(a, b) for a in CASES for b in (('UNSIGNED', 1), ('SIGNED', 8), ('FLOAT', 4))] + [(CASES[0], CASES[8], CASES[10])]
        for cm in combos:
            def oracle(t):
                if t.op == 'mem0' and t.a[0].op == 'arg' and t.a[0].a[0] >= VA and t.a[1] == 0:
                    j, k = divmod(t.a[0].a[0] - VA, 5)
                    if j < len(cm) and k == 2: return cm[j][1]
                    if j < len(cm) and k == 3: return F[cm[j][0]]
            r = S(FN['vars'], {1: C(len(cm))}, oracle)
            hyp = ', '.join('%s of %d bytes' % k for k in cm) or 'no variable'
            rets = r.returns()
            if not rets: c.unknown('entry', 'variables (%s): no return' % hyp); continue
            for x in rets:
                want = []; skip = False
                for j, k in enumerate(cm):
                    it = rd[k]
                    if it is None: c.unknown('entry', 'the reader does not accept %s of %d bytes' % k); skip = True; continue
                    want.append((1, is_const(T['VARIABLE']), 'the tag'))
                    for wd, f in it:
                        b = {'nameindex': 0, 'typeindex': 1, 'size': 2, 'value': 4}.get(f)
                        if b is None: skip = True; continue
                        n = wd if wd is not None else k[1]
                        base = mk('arg', VA + 5 * j + b)
                        want.append((n, is_float(base) if f == 'value' and k == ('FLOAT', 4) else is_low(base, n), {'nameindex': 'the name index', 'typeindex': 'the type index', 'size': 'the size'}.get(f, 'the value')))
                if skip: c.unknown('entry', 'variables (%s)' % hyp); continue
                if not seq(c, 'entry', 'variables (%s)' % hyp, x, want): continue
                vt = x.state.ts[2]
                exp = []
                for k in cm: exp += [(4, 'i')] * 4 + [(8, 'f') if k[0] == 'FLOAT' else (8, 'p') if k[0] == 'POINTER' else (8 if k[1] == 8 else 4, 'i')]
                good = len(vt) == len(exp) and all(a[0] == b[0] and (cls(a[1]) == b[1] or {cls(a[1]), b[1]} == {'i', 'p'}) for a, b in zip(vt, exp))
                c.check(good, 'entry', 'variables (%s): every argument is fetched with the type it has after promotion' % hyp, r.returns()[0].loc if False else anchor(r), '%s instead of %s' % (vt, exp))
    if 'blobs' in have:
        it = reader('BLOB', 0)
        for n in (0, 1, 2):
            r = S(FN['blobs'], {1: C(n)})
            for x in r.returns():
                want = []
                for j in range(n):
                    want.append((1, is_const(T['VARIABLE']), 'the tag'))
                    for wd, f in it or ():
                        b = {'nameindex': 0, 'typeindex': 1, 'size': 2}.get(f)
                        if b is not None: want.append((wd, is_low(mk('arg', VA + 4 * j + b), wd), {'nameindex': 'the name index', 'typeindex': 'the type index', 'size': 'the size'}[f]))
                        else:
                            p = va(4 * j + 3, 8)
                            want.append((va(4 * j + 2, 4), (lambda p: lambda t: (t.a[0] is p or t.a[0].op == 'mem0' and t.a[0].a[0] is p.a[0]) if t.op == 'at' else None)(p), 'the value'))
                if seq(c, 'entry', '%d values of variable size' % n, x, want):
                    vt = x.state.ts[2]
                    c.check(len(vt) == 4 * n and all(v[0] == (8 if k % 4 == 3 else 4) for k, v in enumerate(vt)), 'entry', '%d values of variable size: every argument is fetched with its type' % n, anchor(r))
def cls(k): return {1: 'i', 2: 'i', 3: 'i', 4: 'i', 5: 'p', 8: 'f'}.get(k, '?')
def anchor(r):
    for ev in r.events:
        if ev.name in PUT + ('fwrite',): return ev.loc
    return '?'
def is_float(base):
    def f(t):
        x = t; conv = False
        while x.op in ('bitcast', 'fptrunc'):
            conv = conv or x.op == 'fptrunc'; x = x.a[0]
        if x.op == 'mem0' and x.a[0] is base: return conv and x.a[2] == 8
        if any(y.op == 'mem0' and y.a[0] is base for y in subterms(t)): return True if 'fptrunc' in repr(t) else None
        return False if x.op in ('c', 'mem0', 'arg', 'uninit') else None
    return f

def header(c, R, P, S, have):
    if 'header' not in have: return
    ty = rditems(c, P, 'e_TypeDescription_read', lambda t: None, 'TypeDescription')
    POS = {'nameindex': 0, 'typeformat': 1, 'size': 2}
    LAB = {'nameindex': 'the name of a type', 'typeformat': 'the format of a type', 'size': 'the size of a type'}
    if ty is None or any(f not in POS for wd, f in ty): c.unknown('header', 'the reader of types is not followed')
    else:
        for n in (0, 1, 2, 3):
            for x in S('rt_types_%d' % n).returns():
                want = [(8, is_const(0), 'the number of characters'), (4, is_const(n), 'the number of types')]
                for k in range(n): want += [(wd, is_low_arg(2 + 3 * k + POS[f], wd), LAB[f]) for wd, f in ty]
                seq(c, 'header', 'header with no name and %d types' % n, x, want)
    for n in (0, 1, 2, 3):
        r = S(FN['header'], {3: C(n), 5: C(0)})
        for x in r.returns():
            nm = [mk('mem0', A[2], 8 * k, 8, 0, w=64) for k in range(n)]
            want = [(8, total(nm), 'the number of characters')]
            for k in range(n): want += [(mk('call', 'strlen', nm[k]), (lambda p: lambda t: t.op == 'at' and t.a[0] is p)(nm[k]), 'name %d' % k), (1, is_const(0), 'the zero after name %d' % k)]
            want += [(4, is_const(0), 'the number of types')]
            items = []
            for i in x.state.ts[0]:          # a name written together with its zero
                l = linear(i[0]) if isinstance(i[0], Term) else None
                if l is not None and l[0] == 1 and len(l[1]) == 1 and i[1].op == 'at': items += [(mk('call', 'strlen', i[1].a[0]),) + i[1:], (1, C(0, 8)) + i[2:]]
                else: items.append(i)
            x.state.ts = (tuple(items),) + x.state.ts[1:]
            seq(c, 'header', 'header with %d names' % n, x, want)
def total(nm):
    def f(t):
        l = linear(t)
        if l is None: return None
        return l[1] == {mk('call', 'strlen', p): 1 for p in nm} and l[0] == len(nm)
    return f
def linear(t):
    """t as (constant, {length of a string: coefficient}) or None"""
    if isc(t): return cv(t), {}
    if t.op == 'add':
        x, y = linear(t.a[0]), linear(t.a[1])
        if x is None or y is None: return None
        m = dict(x[1])
        for k, v in y[1].items(): m[k] = m.get(k, 0) + v
        return (x[0] + y[0]) & (1 << 64) - 1, m
    if t.op == 'call' and t.a[0] == 'strlen': return 0, {t: 1}
    return None

def rest(c, R, P, S, T, have):
    if 'id' in have:
        rd = c05.readtags(c, P, 'STATEMENT_ID', 'SIGNED', 4)
        for x in S(FN['id']).returns():
            for q in rd:
                if len(q) != 1: c.unknown('entry', 'statement entry: the reader takes %s' % (q,)); continue
                seq(c, 'entry', 'statement entry', x, [(1, is_const(T['STATEMENT_ID']), 'the tag'), (q[0], is_low_arg(2, q[0]), 'the statement')])
    if 'end' in have:
        for x in S(FN['end']).returns(): seq(c, 'entry', 'end of a point', x, [(1, is_const(T['END_ENTRY']), 'the tag')])
    if 'buffer' in have:
        it = rditems(c, P, 'e_TraceBufferSize_read', lambda t: None, 'TraceBufferSize')
        K = {'address': 1, 'size': 2}
        for x in S(FN['buffer']).returns():
            if it is None or any(f not in K for wd, f in it): c.unknown('entry', 'the reader of allocation records is not followed'); continue
            seq(c, 'entry', 'allocation record', x, [(1, is_const(T['BUFFER_SIZE']), 'the tag')] + [(wd, is_low_arg(K[f], wd), 'the %s' % f) for wd, f in it])
def is_low_arg(k, n):
    def f(t):
        x = t
        while x.op in ('trunc', 'zext', 'sext', 'ptrtoint'): x = x.a[0]
        if x is A[k] or x.op == 'arg' and x.a[0] == k: return True
        return False if x.op in ('c', 'mem0', 'arg', 'uninit', 'undef') else None
    return f

def locks(c, R, S, have):
    for k, f in have.items():
        for args in ([{3: C(2), 5: C(0)}] if k == 'header' else [{1: C(2)}] if k in ('vars', 'blobs') else [None]):
            o = None
            if k == 'vars': o = lambda t: 8 if t.op == 'mem0' and t.a[0].op == 'arg' and t.a[0].a[0] >= VA and (t.a[0].a[0] - VA) % 5 == 2 else 1 if t.op == 'mem0' and t.a[0].op == 'arg' and t.a[0].a[0] >= VA and (t.a[0].a[0] - VA) % 5 == 3 else None
            r = S(f, args, o)
            for x in r.returns():
                items, lk = x.state.ts[0], x.state.ts[3]
                loc = lk[-1][2] if lk else items[-1][3] if items else '?'
                held0 = 1 if k in ('end', 'vars', 'blobs', 'buffer') else 0
                want = {'header': 0, 'id': 1, 'end': 0}.get(k, 1)
                c.check(all(a is A[1] for d, a, l in lk), 'lock', '%s uses the lock given' % f, loc)
                d = held0; low = False
                for v, a, l in lk:
                    d += v; low = low or d < 0 or d > 1
                c.check(not low and d == want, 'lock', '%s %s' % (f, {'header': 'takes and releases the lock', 'id': 'leaves the lock taken', 'end': 'releases the lock'}.get(k, 'keeps the lock as it is')), loc)
                c.check(all(held0 + depth(it[-1]) == 1 for it in items), 'lock', '%s writes while the lock is held' % f, next((it[3] for it in items if held0 + depth(it[-1]) != 1), loc))
def setup(c, R, cs):
    """the lock is initialised and the file opened before the header is written"""
    if '__bi_setup' not in R.fn: return
    def m(e, s, i, name, args, rt):
        if name == 'pthread_mutex_init': s.ts = s.ts[:4] + (True, args[0])
        elif name in ('pthread_mutex_lock',):
            if e.final: seen.append((s.ts[4], s.ts[5] is args[0] or None, locstr(i)))
        if name == 'fopen': return [('ret', s, mk('opened', i['i']))]
        if name in PUT + ('fwrite', 'fputs') and e.final:
            files.append((args[-1], locstr(i)))
        return None
    seen = []; files = []
    try: r = engine.run(R, '__bi_setup', model=m, ts0=((), 0, (), (), False, None))
    except AnalysisError as ex: c.unknown('lock', 'setup: %s' % ex); return
    c.fns.add('__bi_setup')
    for a, b, l in seen: c.check(a, 'lock', 'the lock is initialised before the header is written', l)
def emitted(c, forms):
    """the order of the arguments in the calls that the instrumentation generates, and of the members of a type"""
    WANT = [('arguments of the variable writer', ['name-index', 'type-index', 'size', 'format', 'name'])]
    for rel, top in forms:
        if not rel.startswith('instrumentation'): continue
        for f in lisp.walk(top):
            if len(f) < 3 or f[0] not in ('fmt', 'format') or not any(isinstance(x, lisp.Str) for x in f[1:3]): continue
            k = 1 if isinstance(f[1], lisp.Str) else 2
            a = [str(x) if isinstance(x, lisp.Sym) else str(x[0]) if x and isinstance(x[0], lisp.Sym) else '?' for x in f[k + 1:]]
            at = '%s:%d' % (rel, f.line)
            for what, w_ in WANT:
                if sorted(a) == sorted(w_) and '__' not in f[k]: c.check(a == w_, 'emitted-arguments', '%s: name index, type index, size, format, value' % what, at)
            if f[k].startswith('{') and len(a) == 3 and 'format' in a and 'size' in a: c.check(a[1:] == ['format', 'size'], 'emitted-arguments', 'a type is given by name, format, size', at)
            if len(a) == 4 and a[:2] and set(a[:2]) == {'name-index', 'type-index'}: c.check(a[:2] == ['name-index', 'type-index'], 'emitted-arguments', 'arguments of the writer of strings: name index, type index, size, value', at)
