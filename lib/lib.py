"""Effects of the library functions the repository calls (std, boost, libc).

Containers, strings, flyweights and numbers have a *content* term per object (State.ver); accessors
are functions of the content, mutators replace it.  Anything not listed gets conservative effects
derived from its signature: const objects and const references are left alone, everything else that
is reachable through a non-const pointer is forgotten, and the call may throw unless it is nounwind."""
import re
from terms import *

def split_args(s):
    """'(A, B<C, D>)' -> ['A', 'B<C, D>']"""
    s = s.strip()
    if s.startswith('('): s = s[1:s.rindex(')')] if ')' in s else s[1:]
    r = []; d = 0; cur = ''
    for c in s:
        if c in '<([{': d += 1
        if c in '>)]}': d -= 1
        if c == ',' and d == 0: r.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): r.append(cur.strip())
    return [x for x in r if x != 'void']

class Sig:
    """parsed 'qualified name|params'"""
    __slots__ = ('full', 'cls', 'targs', 'name', 'params', 'const', 'method', 'static', 'ntargs')
_sig = {}
def strip_targs(s):
    d = 0; r = ''
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)', s[i:])
            if m and d == 0: r += m.group(0); i += len(m.group(0)); continue
            if m: i += len(m.group(0)); continue
        c = s[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: r += c
        i += 1
    return r
OPS = {'lt': '<', 'ls': '<<', 'le': '<=', 'gt': '>', 'rs': '>>', 'ge': '>=', 'lS': '<<=', 'rS': '>>='}
def mangled_op(name):
    """'operator<' followed by template arguments looks like 'operator<<': tell them apart"""
    m = re.match(r'_ZN?[KVRO]*(St)?', name)
    if not m: return None
    i = m.end()
    while i < len(name):
        k = re.match(r'\d+', name[i:])
        if not k: break
        i += k.end() + int(k.group(0))
    return OPS.get(name[i:i + 2])
def sig(prog, name):
    if name in _sig: return _sig[name]
    q = prog.qual.get(name, name)
    s = Sig(); s.full = q
    nm, _, ps = q.partition('|')
    s.params = split_args(ps) if ps else []
    # split at the last :: outside <>
    d = 0; cut = -1; i = 0
    while i < len(nm):
        if nm.startswith('operator', i) and (i == 0 or not (nm[i-1].isalnum() or nm[i-1] == '_')) and d == 0:
            break
        c = nm[i]
        if c in '<(': d += 1
        elif c in '>)': d -= 1
        elif c == ':' and d == 0 and nm[i:i+2] == '::': cut = i; i += 1
        i += 1
    full_cls = nm[:cut] if cut >= 0 else ''
    s.name = strip_targs(nm[cut + 2:] if cut >= 0 else nm).strip()
    if s.name.startswith('operator') and re.match(r'operator(<<|>>|<|>)', nm[cut + 2:] if cut >= 0 else nm):
        o = mangled_op(name)
        if o: s.name = 'operator' + o
    s.ntargs = nm[cut + 2:] if cut >= 0 else nm
    s.cls = strip_targs(full_cls)
    m = re.match(r'[^<]*<(.*)>$', full_cls)
    s.targs = split_args('(' + m.group(1) + ')') if m else []
    s.const = name.startswith('_ZNK')
    s.method = bool(full_cls) and (s.const or bool(re.match(r'_ZN[KVRO]*', name))) and not re.match(r'^(std|boost|boost::\w+|std::__detail|boost::serialization)$', s.cls) and not s.cls.startswith('boost::multiprecision::') or s.cls == 'boost::multiprecision::number'
    if s.cls == 'boost::multiprecision' : s.method = False
    _sig[name] = s
    return s

SCALAR = {'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'unsigned int': 4, 'int': 4, 'unsigned short': 2, 'short': 2, 'unsigned char': 1,
          'signed char': 1, 'char': 1, 'bool': 1, 'double': 8, 'float': 4, 'type_format': 4, 'predicate_kind': 4, 'trace_entry_tag': 4, 'size_t': 8}
def base_type(t):
    t = t.strip()
    while True:
        o = t
        for suf in (' const', '&&', '&', ' volatile'):
            if t.endswith(suf): t = t[:-len(suf)].strip()
        if t == o: return t
def indirect(t): return t.rstrip().endswith(('&', '*'))
def isconst(t):
    """pointee is const: 'T const&', 'T const*'; an rvalue reference is not"""
    t = t.strip()
    while t.endswith(('const',)) and not t.endswith(('&', '*')) and (t.endswith('* const') or t.endswith('& const')): t = t[:-5].strip()
    if t.endswith('&&'): return False
    if t.endswith(('&', '*')): return t[:-1].strip().endswith('const')
    return True   # by value
def scalar_size(prog, t):
    t = base_type(t)
    if t in SCALAR: return SCALAR[t]
    if t.endswith('*'): return 8
    r = prog.records.get(t)
    if r and r['tag'] == 'DW_TAG_enumeration_type': return r['s']
    if r and r['tag'] == 'DW_TAG_union_type' and r['s'] <= 8: return r['s']
    return None
def type_size(prog, t):
    n = scalar_size(prog, t)
    if n: return n
    t = base_type(t)
    r = prog.records.get(t)
    if r: return r['s']
    k = strip_targs(t)
    if k in ('std::vector',): return 24
    if k in ('std::__cxx11::basic_string',): return 32
    if k == 'boost::flyweights::flyweight': return 8
    if k in ('std::pair',):
        a, b = split_args('(' + t[t.index('<') + 1:t.rindex('>')] + ')')
        x, y = type_size(prog, a), type_size(prog, b)
        return None if x is None or y is None else (x + y + 7) // 8 * 8
    if k == 'std::map': return 48
    return None

def part(prog, v, off, sz=None):
    """what is stored at offset off (sz bytes; None: the content of a library object there) of the value v, or None"""
    if v.op == 'obj' and v.a[0] in prog.records:
        ms = list(fields(prog, prog.records[v.a[0]]))
        if len(ms) != len(v.a) - 1: return None
        for m, x in zip(ms, v.a[1:]):
            if m['off'] <= off < m['off'] + max(1, m['s']): return part(prog, x, off - m['off'], sz)
        return None
    if off: return None
    if sz is None: return v if v.w is None or v.op not in ('c',) else None
    if v.op in ('obj', 'fwmk', 'vpush', 'vempty', 'cont0', 'str'): return None
    return v if v.w == 8 * sz else None
def elems(t):
    """elements of a vector built by appending to an empty one, or None"""
    out = []
    while t.op in ('vpush', 'vpre', 'vown'):
        if t.op == 'vown': t = t.a[0]; continue
        if len(t.a) != 2: return None
        out.append(t); t = t.a[0]
    if t.op != 'vempty': return None
    r = []
    for x in out[::-1]:
        if x.op == 'vpush': r.append(x.a[1])
        else: r.insert(0, x.a[1])
    return r
def element(e, b, o, sz=None):
    """part of a vector with known elements at byte offset o"""
    if b.op == 'fwget' and b.a[0].op == 'fwmk' and e.exact and isinstance(o, int):
        f = b.a[0]; r = e.prog.records.get(f.a[0])
        if not r: return None
        if len(f.a) == 2 and f.a[1].op == 'obj': return part(e.prog, f.a[1], o, sz)
        ms = list(fields(e.prog, r))
        if len(ms) != len(f.a) - 1: return None
        return part(e.prog, mk('obj', f.a[0], *f.a[1:]), o, sz)
    if b.op != 'vbeg' or b.a[0].op not in ('vpush', 'vpre', 'vown') or not isinstance(o, int) or o < 0: return None
    esz = e.vtype.get(b.a[0]); es = elems(b.a[0])
    if not esz or es is None or o // esz >= len(es): return None
    return part(e.prog, es[o // esz], o % esz, sz)
def content(e, s, p):
    v = s.ver.get(p)
    if v is not None: return v
    b, o = split(p)
    if b.op in ('vbeg', 'fwget') and (b not in s.mem or e.exact):
        v = element(e, b, o)
        if v is not None: return v
    tag = s.mem.get(b, {}).get('_region', 0)
    if b.op == 'idx' and not tag: tag = s.mem.get(mk('dirty', root(b)), {}).get('_region', 0)
    if b.op in ('alloca', 'new', 'heap') and not tag: return mk('cuninit', p)
    return mk('cont0', p, tag)
def chain(es):
    t = mk('vempty')
    for x in es: t = mk('vpush', t, x)
    return t
def vec(e, es, esz):
    t = chain(es); e.vtype[t] = esz
    return t
def own(e, s, this, ct, T):
    """exact mode: elements may be changed in place through a pointer that is handed out, so this vector gets elements of its own"""
    if not e.exact or ct.op == 'vown' and ct.a[1] is this or elems(ct) is None: return ct
    n = mk('vown', flatv(e, s, ct), this, T)
    b = vbeg(n)
    s.mem.pop(b, None)
    for k in [k for k in s.ver if split(k)[0] is b]: del s.ver[k]
    e.vtype[n] = e.vtype.get(ct); s.ver[this] = n
    return n
def flatv(e, s, ct):
    """the value of a vector: changes made in place applied"""
    if ct.op != 'vown': return ct
    b = vbeg(ct)
    if b not in s.mem and not any(split(k)[0] is b for k in s.ver): return ct.a[0]
    esz = e.vtype.get(ct); es = elems(ct)
    if not esz: return ct
    return vec(e, [value(e, s, ptr(b, k * esz), ct.a[2]) for k in range(len(es))], esz)
def cval(e, s, p): return flatv(e, s, content(e, s, p))
def default_value(e, T):
    n = scalar_size(e.prog, T)
    if n: return C(0, 8 * n)
    if strip_targs(base_type(T)) == 'std::vector': return mk('vempty')
    return None
def setc(e, s, p, c):
    b, o = split(p)
    if b.op == 'idx':
        r = root(p)
        for k in list(s.ver):
            if k is not p and root(k) is r: s.ver[k] = mk('phi', ('al', e.cur), ('ver', k))
        s.mem[mk('dirty', r)] = {'_region': mk('memh', e.cur, w=64)}
    s.ver[p] = c

def value(e, s, p, t):
    """value term of the object of type t at p"""
    prog = e.prog
    t = base_type(t)
    n = scalar_size(prog, t)
    if n: return e.load(s, p, n, 8 * n)
    r = prog.records.get(t)
    if r: return record(e, s, p, r)
    k = strip_targs(t)
    if k == 'std::pair' and '<' in t:
        a, b = split_args('(' + t[t.index('<') + 1:t.rindex('>')] + ')')
        x, y = type_size(prog, a), type_size(prog, b)
        if x and y:
            al = max(1, min(8, y))
            off = (x + al - 1) // al * al
            return mk('obj', 'pair', value(e, s, p, a), value(e, s, ptr(p, off), b))
    return cval(e, s, p)
def ditname(t):
    """type name of a DI type"""
    if isinstance(t, str): return t
    k = t.get('k')
    if k in ('base',): return t['n']
    if k in ('DW_TAG_typedef', 'DW_TAG_const_type'): return ditname(t['t'])
    if k == 'rec': return t['n']
    if k in ('DW_TAG_pointer_type',): return ditname(t['t']) + '*'
    return '?'
def fields(prog, r):
    for m in r['el']:
        if m['k'] in ('DW_TAG_member', 'DW_TAG_inheritance') and not m.get('static'):
            yield m
def record(e, s, p, r):
    vs = []
    for m in fields(e.prog, r):
        n = m['s']; nm = ditname(m['t'])
        q = ptr(p, m['off'])
        if nm in SCALAR or nm.endswith('*'): vs.append(e.load(s, q, m['s'], 8 * m['s']))
        else:
            rr = e.prog.records.get(nm)
            if rr and rr['tag'] in ('DW_TAG_enumeration_type', 'DW_TAG_union_type') and rr['s'] <= 8: vs.append(e.load(s, q, m['s'], 8 * m['s']))
            elif rr and rr['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'): vs.append(record(e, s, q, rr))
            elif q in s.ver or m['s'] > 8: vs.append(cval(e, s, q))
            else:
                v = s.ver.get(q)
                vs.append(v if v is not None else content(e, s, q))
    return mk('obj', r['n'], *vs)

def vsize(c):
    if c.op == 'vempty': return C(0)
    if c.op in ('vn', 'vresize'): return c.a[1] if c.op == 'vresize' else c.a[0]
    if c.op in ('vpush', 'vpre'): return binop('add', 64, vsize(c.a[0]), C(1))
    if c.op == 'vown': return vsize(c.a[0])
    return mk('vsize', c)
def vsz(e, s, c):
    if c.op in ('vpush', 'vpre'): return binop('add', 64, vsz(e, s, c.a[0]), C(1))
    if c.op == 'vown': return vsz(e, s, c.a[0])
    return e.known(s, vsize(c))
def vend(e, s, c, esz): return gep(vbeg(c), 0, [(vsz(e, s, c), esz)])
def vrange(e, s, a, b, esz):
    if a.op == 'vbeg' and (b is gep(a, 0, [(vsize(a.a[0]), esz)]) or b is vend(e, s, a.a[0], esz)): return flatv(e, s, a.a[0])
    if e.exact:
        (x, i), (y, j) = split(a), split(b)
        if x is y and x.op == 'vbeg' and elems(x.a[0]) is not None and 0 <= i <= j: return vec(e, elems(flatv(e, s, x.a[0]))[i // esz:j // esz], esz)
        if x is y and x.op in ('blk', 'heap', 'alloca') and isinstance(i, int) and isinstance(j, int) and 0 <= j - i <= 1 << 16 and esz in (1, 2, 4, 8): return vec(e, [e.load(s, ptr(x, k), esz, 8 * esz) for k in range(i, j, esz)], esz)
    return mk('vrange', a, b)
def vbeg(c): return mk('vbeg', c)
def slen(c): return mk('slen', c)

def numval(e, s, a, t):
    bt = base_type(t)
    if bt.startswith('boost::multiprecision::') and 'number<' in bt[:40] or 'expression' in bt[:60]: return content(e, s, a)
    v = value(e, s, a, t) if indirect(t) else a
    return mk('num', '?', v, bt) if scalar_size(e.prog, bt) else v
def numconv(e, s, K, a, t):
    """content of a number of kind K built from the argument"""
    bt = base_type(t)
    if scalar_size(e.prog, bt):
        v = value(e, s, a, t) if indirect(t) else a
        return mk('num', K, v, bt)
    if 'number<' in bt[:40] or 'expression' in bt[:60]:
        x = content(e, s, a)
        k = 'F' if 'cpp_dec_float' in bt else 'I'
        return x if k == K else mk('conv', K, x)
    return mk('num', K, value(e, s, a, t) if indirect(t) else a, bt)
def ncmp(o, K, x, y, w=1):
    """normalised: < <= == !="""
    if x.op == 'num' and isc(x.a[1]): x = mk('num', K, C(cv(x.a[1])), 'c')
    if y.op == 'num' and isc(y.a[1]): y = mk('num', K, C(cv(y.a[1])), 'c')
    if o in ('>', '>='): o = {'>': '<', '>=': '<='}[o]; x, y = y, x
    if o in ('==', '!=') and x.id > y.id: x, y = y, x
    t = mk('ncmp', {'!=': '=='}.get(o, o), K, x, y, w=1)
    t = notb(t) if o == '!=' else t
    return cast('zext', w, t) if w and w > 1 else t
def mapents(ct):
    """[(key, value)] of a map with known contents, or None"""
    out = []
    while ct.op == 'mapins':
        if len(ct.a) != 3: return None
        out.append((ct.a[1], ct.a[2])); ct = ct.a[0]
    return out[::-1] if ct.op == 'mapempty' else None
def exact_map(e, s, i, sg, this, ct, ar, rt, w):
    """maps with known entries; keys are told apart by what is known about them"""
    n = sg.name; K, V = sg.targs[0], sg.targs[1]
    if n == 'clear' or n in ('map', 'unordered_map') and not (sg.params and strip_targs(base_type(sg.params[0])) == sg.cls):
        setc(e, s, this, mk('mapempty')); return (None,)
    if n in ('map', 'unordered_map', 'operator='):
        es = mapents(ct2) if (ct2 := content(e, s, ar[0])) is not None else None
        if es is None: return None
        for k, v in es: setc(e, s, ptr(mk('mapnode', this, k), second(e, K)), content(e, s, ptr(mk('mapnode', ar[0], k), second(e, K))))
        setc(e, s, this, content(e, s, ar[0])); return (this if n == 'operator=' else None,)
    ents = mapents(ct)
    if ents is None: return None
    if n in ('end', 'cend'): return (C(0),)
    if n == 'size': return (C(len(ents)),)
    if n == 'empty': return (C(not ents, w),)
    off = second(e, K)
    if n in ('find', 'count', 'operator[]', 'at'): k = value(e, s, ar[0], K)
    elif n in ('insert', 'emplace', 'emplace_hint'):
        a = ar[1:] if n == 'emplace_hint' else ar
        vs = [value(e, s, x, t) if indirect(t) else x for x, t in zip(a, sg.params[len(ar) - len(a):])]
        if len(vs) == 1 and vs[0].op == 'obj' and vs[0].a[0] == 'pair': k, v = vs[0].a[1:]
        elif len(vs) == 2: k, v = vs
        else: return None
    else: return None
    hit = None
    for x, _ in ents:
        d = keyeq(e, s, x, k)
        if d is True: hit = x
        elif d is None: return None
    if n == 'find': return (mk('mapit', this, hit) if hit is not None else C(0),)
    if n == 'count': return (C(hit is not None, w),)
    if hit is None:
        if n == 'at': return None
        if n == 'operator[]': v = default_value(e, V)
        if v is None: return None
        setc(e, s, this, mk('mapins', ct, k, v)); setc(e, s, ptr(mk('mapnode', this, k), off), v)
    if n in ('operator[]', 'at'): return (ptr(mk('mapnode', this, hit if hit is not None else k), off),)
    it = mk('mapit', this, hit if hit is not None else k)
    return (mk('agg', it, C(hit is None, 8), 0, 0, 0, 0, 0, 0) if n in ('insert', 'emplace') else it,)
def second(e, K): return (type_size(e.prog, K) + 7) // 8 * 8
def keyeq(e, s, x, y):
    if x is y: return True
    if x.op == 'obj' and y.op == 'obj' and len(x.a) == len(y.a):
        r = True
        for p, q in zip(x.a[1:], y.a[1:]):
            d = keyeq(e, s, p, q)
            if d is False: return False
            if d is None: r = None
        return r
    if x.w and x.w == y.w:
        k = e.known(s, icmp('eq', x, y))
        if isc(k): return bool(cv(k))
    return None
SIDE_FREE_PARAM = re.compile(r'flyweight|hash_combine')

def default(e, s, i, name, args, rt):
    prog = e.prog
    sg = sig(prog, name)
    out = []
    res = rt
    throws = not i.get('nt') and not sg.name.startswith('~')
    c, n = sg.cls, sg.name
    w = e.width(i.get('t'))
    def done(res=None, thr=None):
        r = [('ret', s, res)]
        if (throws if thr is None else thr):
            r.append(('throw', s.copy(), 'lib'))
        return r
    def pv(k):
        """value of parameter k (skipping this / sret)"""
        t = sg.params[k]; a = ar[k]
        if t.rstrip().endswith('&'): return value(e, s, a, t)
        return a
    ar = list(args)
    sret = None
    if i.get('sret'): sret = ar.pop(0)
    this = None
    if n == 'operator()' and re.match(r'(boost|std)::hash\b', c) and len(ar) == len(sg.params) + 1: this = ar.pop(0)
    elif sg.method and not (len(ar) == len(sg.params)): this = ar.pop(0) if ar else None
    # ---------------------------------------------------------------- libc / runtime
    if name in ('_Znwm', '_Znam'):
        t = mk('new', rt); e.heap[t] = args[0]
        s.mem.pop(t, None)
        return done(t, True)
    if name in ('malloc', 'calloc'):
        t = mk('heap', rt); s.mem.pop(t, None); e.heap[t] = args[0] if name == 'malloc' else binop('mul', 64, args[0], args[1])
        if name == 'calloc': s.mem[t] = {'_region': mk('memzero')}
        return done(t, False)
    if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): return done(None, False)
    if name == '__cxa_allocate_exception':
        return done(mk('new', rt), False)
    if name == '__cxa_throw':
        return [('throw', s, args[1].a[0] if args[1].op == 'glob' else '?')]
    if name == '__cxa_rethrow': return [('throw', s, '?')]
    if name in ('__cxa_begin_catch',): return done(mk('caught', rt), False)
    if name in ('__cxa_end_catch', '__cxa_free_exception', '__cxa_thread_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'): return done(rt if 't' in i else None, False)
    if name == '__cxa_guard_acquire': return done(rt, False)
    if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit'):
        e.exit('noreturn', name, s, i); return []
    if name in ('open', 'select', 'fcntl', 'close', 'rand', 'time', 'getpid', 'printf', 'fprintf', 'puts'):
        if name == 'select':
            for k in (1, 2, 3, 4):
                if root(args[k]).op != 'c': e.havoc(s, args[k], i['i'])
        return done(rt, False)
    if name == 'memcmp':
        return done(mk('call', 'memcmp', *args, w=32), False)
    if name in ('memcpy', 'memmove'):
        if isc(args[2]): e.memcpy(s, args[0], args[1], cv(args[2]))
        else: e.havoc(s, args[0], i['i'])
        return done(args[0], False)
    if name in ('strcmp', 'strncmp', 'strcoll', 'strcasecmp', 'bcmp'): return done(mk('call', 'memcmp' if name == 'bcmp' else name, *args, w=32), False)
    if name == 'strlen': return done(mk('call', 'strlen', args[0]), False)
    # ---------------------------------------------------------------- vectors
    if c == 'std::vector' and this is not None:
        T = sg.targs[0]; esz = type_size(prog, T)
        if esz is None: esz = 1
        ct = content(e, s, this); e.vtype[ct] = esz
        if e.exact and not sg.const and n in ('begin', 'end', 'data', 'operator[]', 'at', 'front', 'back', 'rbegin', 'rend'): ct = own(e, s, this, ct, T)
        if e.exact and n in ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'swap', 'operator='):
            ft = flatv(e, s, ct)
            if n in ('insert', 'emplace') and ft is not ct and ar:
                x, o = split(ar[0])
                if x is vbeg(ct): ar[0] = gep(vbeg(ft), o, [])
            e.vtype[ft] = esz; ct = ft
        if n in ('size',): return done(vsz(e, s, ct), False)
        if n in ('empty',): return done(icmp('eq', vsz(e, s, ct), C(0)), False)
        if n in ('begin', 'cbegin', 'data'): return done(vbeg(ct), False)
        if n in ('end', 'cend'): return done(vend(e, s, ct, esz), False)
        if n in ('rbegin', 'crbegin', 'rend', 'crend') and sret is not None: e.store(s, sret, 8, vend(e, s, ct, esz) if 'beg' in n else vbeg(ct)); return done(None, False)
        if e.exact and n == 'operator[]' and isc(ar[0]) and elems(ct) is not None and cv(ar[0]) >= len(elems(ct)): return done(mk('oobp', e.cur, cv(ar[0]), len(elems(ct))), False)
        if n == 'operator[]': return done(gep(vbeg(ct), 0, [(ar[0], esz)]), False)
        if n == 'at': return done(gep(vbeg(ct), 0, [(ar[0], esz)]), True)
        if n == 'front': return done(vbeg(ct), False)
        if n == 'back': return done(gep(vbeg(ct), -esz, [(vsz(e, s, ct), esz)]), False)
        if n == '~vector':
            s.ver.pop(this, None); return done(None, False)
        if n == 'vector':
            ps = sg.params
            if not ps or (len(ps) == 1 and 'allocator' in ps[0] and 'vector' not in ps[0]): setc(e, s, this, mk('vempty')); return done(None)
            if base_type(ps[0]).startswith('std::vector<'):
                setc(e, s, this, cval(e, s, ar[0])); e.vtype[content(e, s, this)] = esz
                if ps[0].endswith('&&'): setc(e, s, ar[0], mk('moved', rt) if not e.exact else mk('vempty'))
                return done(None)
            if ps[0] == 'unsigned long' and e.exact and isc(ar[0]) and cv(ar[0]) <= 64:
                d = value(e, s, ar[1], ps[1]) if len(ps) > 1 and 'allocator' not in ps[1] else default_value(e, T)
                if d is not None: setc(e, s, this, vec(e, [d] * cv(ar[0]), esz)); return done(None)
            if ps[0] == 'unsigned long':
                setc(e, s, this, mk('vempty') if isc(ar[0]) and cv(ar[0]) == 0 else mk('vn', ar[0], mk('at', e.cur, this)))
                return done(None)
            if len(ps) >= 2 and len(ar) >= 2:
                setc(e, s, this, vrange(e, s, ar[0], ar[1], esz)); return done(None)
            setc(e, s, this, mk('evv', e.cur)); return done(None)
        if n in ('push_back', 'emplace_back'):
            v = [value(e, s, a, t) if indirect(t) else a for a, t in zip(ar, sg.params)]
            setc(e, s, this, mk('vpush', ct, *v)); e.vtype[content(e, s, this)] = esz; return done(None if 't' not in i else rt, True)
        if n == 'pop_back' and ct.op == 'vpush': setc(e, s, this, ct.a[0]); return done(None, False)
        if n in ('insert', 'emplace') and len(ar) == 2 and ar[0].op in ('vbeg', 'ptr', 'idx') and 'initializer_list' not in sg.params[1]:
            v = value(e, s, ar[1], sg.params[1]) if indirect(sg.params[1]) else ar[1]
            if ar[0] is vend(e, s, ct, esz): setc(e, s, this, mk('vpush', ct, v)); e.vtype[content(e, s, this)] = esz; return done(rt if 't' in i else None, True)
            if ar[0] is vbeg(ct): setc(e, s, this, mk('vpre', ct, v)); e.vtype[content(e, s, this)] = esz; return done(rt if 't' in i else None, True)
        if n in ('reserve', 'shrink_to_fit'): return done(None, True)
        if n == 'assign' and len(ar) == 2 and sg.params[0] != 'unsigned long': setc(e, s, this, vrange(e, s, ar[0], ar[1], esz)); return done(None)
        if n == 'insert' and len(ar) == 3 and sg.params[1] != 'unsigned long' and ar[0] is vend(e, s, ct, esz):
            v = vrange(e, s, ar[1], ar[2], esz)
            setc(e, s, this, v if ct.op == 'vempty' else mk('vcat', ct, v)); return done(rt if 't' in i else None)
        if n == 'resize' and e.exact and isc(ar[0]) and cv(ar[0]) <= 64 and elems(ct) is not None:
            d = value(e, s, ar[1], sg.params[1]) if len(ar) > 1 else default_value(e, T); es = elems(ct)
            if d is not None or cv(ar[0]) <= len(es): setc(e, s, this, vec(e, (es + [d] * 64)[:cv(ar[0])], esz)); return done(None)
        if n == 'resize': setc(e, s, this, mk('vempty') if isc(ar[0]) and cv(ar[0]) == 0 else mk('vresize', ct, ar[0])); return done(None, True)
        if n == 'clear': setc(e, s, this, mk('vempty')); return done(None, False)
        if n == 'operator=':
            setc(e, s, this, cval(e, s, ar[0])); e.vtype[content(e, s, this)] = esz
            if sg.params[0].endswith('&&'): setc(e, s, ar[0], mk('moved', rt) if not e.exact else mk('vempty'))
            return done(this)
        if n == 'swap':
            o = cval(e, s, ar[0]); setc(e, s, this, o); setc(e, s, ar[0], ct); return done(None, False)
        setc(e, s, this, mk('evv', e.cur)); return done(rt if 't' in i else None)
    # ---------------------------------------------------------------- strings
    if c == 'std::__cxx11::basic_string' and this is not None:
        ct = content(e, s, this)
        if n in ('length', 'size'): return done(slen(ct), False)
        if n in ('c_str', 'data'): return done(mk('cstr', ct), False)
        if n == 'empty': return done(icmp('eq', slen(ct), C(0)), False)
        if n == '~basic_string': s.ver.pop(this, None); return done(None, False)
        if n in ('basic_string', 'operator=', 'assign'):
            ps = sg.params
            if not ps: setc(e, s, this, mk('str', 'empty'))
            elif ps[0].startswith('char const*'): setc(e, s, this, mk('str', *[a for a, t in zip(ar, ps) if 'allocator' not in t]))
            elif 'basic_string' in ps[0]: setc(e, s, this, content(e, s, ar[0]))
            else: setc(e, s, this, mk('evv', e.cur))
            return done(this if n != 'basic_string' else None)
        if sg.const: return done(mk('call', 'string::' + n, ct, *ar, w=w))
        setc(e, s, this, mk('evv', e.cur)); return done(this if 't' in i else None)
    # ---------------------------------------------------------------- flyweights
    if c == 'boost::flyweights::flyweight' and this is not None:
        ct = content(e, s, this)
        if n in ('get',) or n.startswith('operator ') or n.startswith('operator T') or 'const&' in n: return done(mk('fwget', ct), False)
        if n == '~flyweight': s.ver.pop(this, None); return done(None, False)
        if n == 'flyweight':
            ps = sg.params
            if len(ps) == 1 and 'flyweight<' in ps[0] and base_type(ps[0]).startswith('boost::flyweights::flyweight<'): setc(e, s, this, content(e, s, ar[0]))
            else: setc(e, s, this, mk('fwmk', base_type(sg.targs[0]), *[value(e, s, a, t) if t.rstrip().endswith('&') else a for a, t in zip(ar, ps)]))
            return done(None)
        if n == 'operator=':
            setc(e, s, this, content(e, s, ar[0]) if 'flyweight<' in sg.params[0] else mk('fwmk', base_type(sg.targs[0]), value(e, s, ar[0], sg.params[0])))
            return done(this)
    if c == 'boost::flyweights' and n in ('operator==', 'operator!='):
        x, y = content(e, s, ar[0]), content(e, s, ar[1])
        t = mk('fweq', *((x, y) if x.id < y.id else (y, x)), w=1) if x is not y else TRUE
        return done(t if n == 'operator==' else notb(t), False)
    # ---------------------------------------------------------------- hashing
    if c == 'boost' and n == 'hash_combine':
        old = e.load(s, ar[0], 8, 64)
        e.store(s, ar[0], 8, mk('hash', old, value(e, s, ar[1], sg.params[1])))
        return done(None, False)
    if (c.startswith('boost::hash') or c.startswith('std::hash')) and n == 'operator()' and ar:
        return done(mk('hashof', value(e, s, ar[0], sg.params[0]) if indirect(sg.params[0]) else ar[0]), False)
    if c == 'boost' and n in ('hash_range', 'hash_value'):
        return done(mk(n, *[a if not t.rstrip().endswith('&') else value(e, s, a, t) for a, t in zip(ar, sg.params)]), False)
    # ---------------------------------------------------------------- comparison of library objects
    if c in ('std', 'std::__detail') and n in ('operator==', 'operator!=', 'operator<') and len(ar) == 2 and not i.get('sret'):
        if 'iterator' in sg.params[0]:
            x, y = e.load(s, ar[0], 8, 64), e.load(s, ar[1], 8, 64); t = icmp('eq', x, y)
        else:
            x, y = value(e, s, ar[0], sg.params[0]), value(e, s, ar[1], sg.params[1])
            if n == 'operator<': return done(mk('vlt', x, y, w=1), False)
            t = TRUE if x is y else mk('veq', *((x, y) if x.id < y.id else (y, x)), w=1)
        return done(notb(t) if n == 'operator!=' else t, False)
    # ---------------------------------------------------------------- maps and sets
    if c in ('std::map', 'std::unordered_map', 'std::unordered_set', 'std::set', 'std::multimap') and this is not None:
        ct = content(e, s, this)
        K = sg.targs[0]
        if e.exact and 'map' in c and len(sg.targs) > 1:
            r = exact_map(e, s, i, sg, this, ct, ar, rt, w)
            if r is not None: return done(r[0], False)
        if n in ('find', 'count', 'lower_bound', 'upper_bound'): return done(mk('call', n, ct, value(e, s, ar[0], K), w=w), False)
        if n in ('end', 'cend'): return done(mk('call', 'end', ct), False)
        if n in ('begin', 'cbegin', 'size', 'empty'): return done(mk('call', n, ct, w=w), False)
        if n in ('operator[]', 'at'):
            k = value(e, s, ar[0], K)
            if n == 'operator[]': setc(e, s, this, mk('mapins', ct, k))
            return done(mk('mapel', this, k), True)
        if n in ('insert', 'emplace'):
            setc(e, s, this, mk('mapins', ct, *[value(e, s, a, t) if indirect(t) else a for a, t in zip(ar, sg.params)]))
            return done(rt if 't' in i else None, True)
        if n == 'clear': setc(e, s, this, mk('vempty')); return done(None, False)
        if n in ('map', 'set', 'unordered_map', 'unordered_set'):
            if sg.params and strip_targs(base_type(sg.params[0])) == c: setc(e, s, this, content(e, s, ar[0]))
            else: setc(e, s, this, mk('mapempty', *[a for a in ar if False]))
            return done(None)
        if n.startswith('~'): s.ver.pop(this, None); return done(None, False)
        setc(e, s, this, mk('evv', e.cur)); return done(rt if 't' in i else None)
    if 'iterator' in c and this is not None:
        v = e.load(s, this, 8, 64)
        if e.exact and v.op == 'mapit' and n in ('operator*', 'operator->'): return done(mk('mapnode', *v.a), False)
        if n in ('operator*', 'operator->'): return done(mk('iterel', v), False)
        if n == 'operator++':
            e.store(s, this, 8, mk('iternext', v)); return done(this, False)
    # ---------------------------------------------------------------- streams and archives
    if n == 'read' and c in ('std::istream', 'std::basic_istream'):
        import stream
        stream.put(e, s, ar[0], ar[1], lambda m: e.orc(mk('in', rt, 0, m, 0, w=8 * m)))
        e.bump(s, this); return done(this, False)
    if c in ('std::basic_ios', 'std::istream', 'std::basic_istream', 'std::ios') and n in ('good', 'eof', 'fail', 'bad', 'operator!', 'operator bool', 'rdstate'):
        return done(mk('call', 'ios::' + n, content(e, s, this), w=w), False)
    if c in ('std::ostream', 'std::basic_ostream') and this is not None:
        return done(this if 't' in i else None, False)
    if c == 'std' and n.startswith('operator<<'): return done(ar[0])
    if c == 'boost::flyweights' and n.startswith('operator<<'): return done(ar[0])
    if 'archive' in c and n in ('operator&', 'operator>>', 'operator<<') and ar:
        if not isconst(sg.params[0]):
            t = base_type(sg.params[0]); sz = scalar_size(prog, t)
            if sz: e.store(s, ar[0], sz, mk('in', rt, 0, sz, 0, w=8 * sz))
            else:
                e.havoc(s, ar[0], i['i']); setc(e, s, ar[0], mk('in', rt, 0, 0, 0))
        return done(this)
    # ---------------------------------------------------------------- numbers
    if c == 'boost::multiprecision' and n.startswith('operator') and len(ar) in (1, 2):
        o = n[8:].strip(); K = 'F' if 'cpp_dec_float' in sg.full else 'I'
        vs = [numval(e, s, a, t) for a, t in zip(ar, sg.params)]
        if o in ('<', '<=', '>', '>=', '==', '!=') and not sret: return done(ncmp(o, K, *vs, w))
        if sret and o in ('+', '-', '*', '/', '%'):
            e.havoc(s, sret, i['i']); setc(e, s, sret, mk('nop', o, K, *vs)); return done(None)
        if sret: e.havoc(s, sret, i['i']); setc(e, s, sret, mk('pcall', n, *vs)); return done(None)
        return done(mk('call', n, *vs, w=w))
    if c == 'boost::multiprecision::number' and this is not None:
        K = 'F' if 'cpp_dec_float' in ''.join(sg.targs) else 'I'
        if n in ('number', 'operator='):
            if not ar or len(sg.params) == 0: v = mk('num', K, C(0), 'int')
            else: v = numconv(e, s, K, ar[0], sg.params[0])
            setc(e, s, this, v)
            return done(None if n == 'number' else this)
        if n == '~number': s.ver.pop(this, None); return done(None, False)
        if n in ('convert_to', 'operator T') or n.startswith('convert_to'):
            x = content(e, s, this)
            T = sg.ntargs
            if sret:
                D = 'F' if 'cpp_dec_float' in T or K == 'I' and not 'cpp_int' in T else 'I'
                setc(e, s, sret, x if D == K else mk('conv', D, x)); return done(None)
            return done(mk('call', 'convert_to', x, w=w))
        if n in ('is_zero',): return done(ncmp('==', K, content(e, s, this), mk('num', K, C(0), 'int'), w))
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            setc(e, s, this, mk('nop', n[8], K, content(e, s, this), numval(e, s, ar[0], sg.params[0]) if indirect(sg.params[0]) else mk('num', K, ar[0], base_type(sg.params[0]))))
            return done(this)
    # ---------------------------------------------------------------- generic
    vals = []
    if this is not None: vals.append(content(e, s, this) if sg.cls.startswith(('std', 'boost')) else this)
    for k, a in enumerate(ar):
        t = sg.params[k] if k < len(sg.params) else ''
        if t.rstrip().endswith('&'): vals.append(value(e, s, a, t))
        else: vals.append(a)
    forward = bool(SIDE_FREE_PARAM.search(sg.full.split('|')[0]))
    if this is not None and not sg.const and root(this).op != 'c':
        if n.startswith('~'): s.ver.pop(this, None)
        else:
            rr = prog.records.get(sg.full.split('|')[0][:-len(sg.ntargs) - 2]) or prog.records.get(c)
            n_ = rr['s'] if rr else {'std::mutex': 40}.get(c)
            if n_ and n_ <= 4096 and split(this)[0].op != 'idx':
                # a method changes its own object only
                e.store(s, this, n_, mk('hv', mk('ev', e.cur), w=8 * n_))
                b, o = split(this)
                for k in list(s.ver):
                    kb, ko = split(k)
                    if kb is b and o <= ko < o + n_: s.ver[k] = mk('evv', e.cur, k)
                setc(e, s, this, mk('evv', e.cur))
            else: e.havoc(s, this, i['i']); setc(e, s, this, mk('evv', e.cur))
    for k, a in enumerate(ar):
        t = sg.params[k] if k < len(sg.params) else '*'
        if indirect(t) and not isconst(t) and not forward and root(a).op != 'c': e.havoc(s, a, i['i'])
    if not sg.params and this is None and name not in prog.fn:
        for a in ar:
            if a.op in ('alloca', 'ptr', 'new', 'heap') and root(a).op in ('alloca', 'new', 'heap'): e.havoc(s, a, i['i'])
    if sret is not None:
        e.havoc(s, sret, i['i']); setc(e, s, sret, mk('pcall', n, *vals))
    res = None
    if 't' in i:
        res = mk('call', sg.cls + '::' + n, *vals, w=w) if sg.const and c.startswith(('std', 'boost')) else rt
        if n in ('operator<<', 'operator>>', 'operator=', 'write', 'put', 'append', 'operator+=') and this is not None: res = this
    if i.get('nr'):
        e.exit('noreturn', name, s, i); return [('throw', s, 'lib')] if throws else []
    return done(res)
