"""Dataflow engine over the normalised IR (one function at a time, everything of the repository inlined).

Forward analysis: conditional constant propagation over value numbers, with memory cells, branch
facts, unsigned ranges and an optional typestate.  States are joined at merges per (block, partition
key) and iterated to a fixpoint; differing values become opaque phi terms, so the iteration
terminates.  Nothing is executed and no path is handed to a solver."""
import heapq, time, json, re
from terms import *

ORC = {'icmp', 'ev', 'call', 'mem0', 'veq', 'fweq', 'vlt', 'vsize', 'hashof', 'extract', 'in'}

class AnalysisError(Exception): pass

class Program:
    def __init__(self, path):
        o = json.load(open(path))
        self.raw = o
        self.fn = {f['name']: Fn(f, self) for f in o['functions']}
        self.qual = o['decls']
        self.globals = o['globals']
        self.repo = set(o['repo'])
        self.records = {}
        for r in o['records']:
            if r['n'] not in self.records or len(r['el']) > len(self.records[r['n']]['el']): self.records[r['n']] = r
        self.subprograms = o['subprograms']
        self._off = {}
    def get(self, name):
        if name not in self.fn: raise AnalysisError('anchor vanished: function %s not found' % name)
        return self.fn[name]
    def by_qual(self, rx):
        r = re.compile(rx)
        return [f for n, f in self.fn.items() if r.search(self.qual.get(n, n))]
    def dem(self, f):
        return self.fn[f].dem if f in self.fn else self.qual.get(f, f)
    def field(self, cls, getter):
        """(path) location of a field, derived from the public accessor: list of ('load') pointer offset"""
        k = (cls, getter)
        if k not in self._off:
            r = run(self, 'g_%s_%s' % (cls, getter))
            rets = r.returns()
            if len(rets) != 1: raise AnalysisError('accessor %s::%s is not a plain accessor' % k)
            self._off[k] = rets[0].value
        return self._off[k]
    def catches(self, ty, exc):
        """does a handler for type ty catch exception class exc? None: unknown"""
        if exc == '?': return None
        if exc == 'lib': return True if ty == '_ZTISt9exception' else None if ty.startswith('_ZTISt') else False
        seen = set(); st = [exc]
        STD = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error']}
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            if t == ty: return True
            G = self.globals.get(t, {})
            st += STD.get(t) or G.get('refs') or []
        return False
    def enum(self, name):
        r = self.records.get(name)
        if not r or r['tag'] != 'DW_TAG_enumeration_type': raise AnalysisError('enum %s not found' % name)
        return {e['n']: e['v'] for e in r['el'] if e['k'] == 'enumerator'}

class Fn:
    def __init__(self, f, prog):
        self.prog = prog; self.name = f['name']; self.dem = f['dem']; self.kind = f['kind']; self.args = f['args']; self.ret = f['ret']
        self.file = f.get('file'); self.line = f.get('line')
        self.blocks = f['blocks']
        self.succ = []
        for b in self.blocks:
            t = b[-1]; o = t['o']
            if o == 'br': s = [x['i'] for x in t['a'] if x['k'] == 'b']
            elif o == 'switch': s = [t['d']] + [c[1] for c in t['cases']]
            elif o == 'invoke': s = [t['n'], t['u']]
            else: s = []
            self.succ.append(s)
        n = len(self.blocks)
        self.pred = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for j in s: self.pred[j].append(i)
        # reverse post-order
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w); stack.append((w, iter(self.succ[w]))); break
            else:
                order.append(v); stack.pop()
        order.reverse(); self.rpo = {b: i for i, b in enumerate(order)}; self.order = order
        # blocks in cycles
        self.cyc = self._cyclic()
        self.heads = set(w for v in order for w in self.succ[v] if self.rpo[w] <= self.rpo[v])
        self.loopset = self._loops()
        self._live()
        self._flags()
        self.nins = sum(len(b) for b in self.blocks)
    def _cyclic(self):
        idx = {}; low = {}; on = set(); st = []; res = set(); self.sccid = {}
        cnt = [0]
        for r in self.order:
            if r in idx: continue
            work = [(r, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); on.add(v)
                rec = False
                for k in range(i, len(self.succ[v])):
                    w = self.succ[v][k]
                    if w not in idx:
                        work.append((v, k + 1)); work.append((w, 0)); rec = True; break
                    elif w in on: low[v] = min(low[v], idx[w])
                if rec: continue
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    for w in comp: self.sccid[w] = v
                    if len(comp) > 1 or v in self.succ[v]: res |= set(comp)
                if work:
                    u = work[-1][0]; low[u] = min(low[u], low[v])
        return res
    def _loops(self):
        """natural loops: header -> set of blocks"""
        L = {}
        for v in self.order:
            for h in self.succ[v]:
                if self.rpo[h] <= self.rpo[v]:
                    body = L.setdefault(h, {h})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += [p for p in self.pred[x] if p in self.rpo]
        return L
    def _flags(self):
        """phis that merge constants only (boolean results, cleanup destinations): states are kept apart on them"""
        ph = {}
        for b in self.blocks:
            for i in b:
                if i['o'] != 'phi': break
                if i.get('t') in ('i1', 'i8', 'i32'): ph[i['i']] = i
        ok = set(ph)
        ch = True
        while ch:
            ch = False
            for k in list(ok):
                nc = 0
                for v, _ in ph[k]['in']:
                    if v['k'] == 'c': nc += 1
                    elif v['k'] == 'v' and v['i'] in ok: pass
                    elif v['k'] == 'undef': pass
                    else:
                        if ph[k]['t'] == 'i1': continue
                        ok.discard(k); ch = True; break
        self.flags = ok
    def _uses(self, i):
        def u(o):
            if o['k'] == 'v': yield o['i']
            elif o['k'] == 'gep':
                yield from u(o['base'])
                for t, _ in o['var']: yield from u(t)
            elif o['k'] == 'ce':
                for x in o['ops']: yield from u(x)
        if i['o'] == 'getelementptr':
            if 'base' in i:
                yield from u(i['base'])
                for t, _ in i['var']: yield from u(t)
        if i['o'] == 'switch': yield from u(i['c'])
        for x in i.get('a', ()): yield from u(x)
        if 'fv' in i: yield from u(i['fv'])
    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i['o'] == 'phi':
                    dfn[bi].add(i['i'])
                    for v, p in i['in']:
                        if v['k'] == 'v': phiuse[p].add(v['i'])
                        elif v['k'] in ('gep', 'ce'): pass
                else:
                    for x in self._uses(i):
                        if x not in dfn[bi]: use[bi].add(x)
                    dfn[bi].add(i['i'])
        lin = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in reversed(self.order):
                out = set(phiuse[bi])
                for s in self.succ[bi]: out |= lin[s]
                ni = use[bi] | (out - dfn[bi])
                if ni != lin[bi]: lin[bi] = ni; ch = True
        self.livein = lin

class State:
    __slots__ = ('env', 'mem', 'facts', 'rng', 'ver', 'ts', 'exc')
    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = {}; self.rng = {}; self.ver = {}; self.ts = None; self.exc = None
    def copy(self):
        s = State(); s.env = dict(self.env); s.mem = {b: dict(c) for b, c in self.mem.items()}
        s.facts = dict(self.facts); s.rng = dict(self.rng); s.ver = dict(self.ver); s.ts = self.ts; s.exc = self.exc
        return s

def same_state(a, b):
    return a.env == b.env and a.mem == b.mem and a.facts == b.facts and a.rng == b.rng and a.ver == b.ver and a.ts == b.ts and a.exc == b.exc

class Event:
    __slots__ = ('name', 'qual', 'args', 'state', 'ins', 'block', 'fn', 'res', 'key')
    @property
    def loc(self): return locstr(self.ins)
    def __repr__(self): return '%s%s @%s' % (self.name[:60], self.args, self.loc)

class Exit:
    __slots__ = ('kind', 'value', 'state', 'ins', 'block', 'fn')
    @property
    def loc(self): return locstr(self.ins)

def locstr(i):
    """innermost location inside the repository"""
    ls = [i.get('l', '?')] + list(i.get('ia', ()))
    for l in ls:
        if 'cffi-interface' in l: return l[l.index('cffi-interface'):]
    return ls[-1]

TOPREG = '_region'

FRAMES = {}
DEADLINE = [float('inf')]
class Work:
    """work list in reverse post order"""
    def __init__(self, rpo): self.rpo = rpo; self.s = set(); self.h = []; self.n = 0
    def __bool__(self): return bool(self.s)
    def add(self, x):
        if x not in self.s: self.s.add(x); self.n += 1; heapq.heappush(self.h, (self.rpo[x[0]], self.n, x))
    def discard(self, x): self.s.discard(x)
    def pop(self):
        while True:
            x = heapq.heappop(self.h)[2]
            if x in self.s: self.s.discard(x); return x
class Engine:
    def __init__(self, prog, fn, oracle=None, model=None, ts0=None, init=None, unroll=0, keyfn=None, maxvisits=60000, args=None, assume=None, noalias=True, exact=False, nest=False, nothrow=False, order=False):
        self.exact = exact; self.nest = nest; self.nothrow = nothrow; self.order = order; self.frame = (); self.fid = 0
        self.prog = prog
        self.fn = prog.get(fn) if isinstance(fn, str) else fn
        self.oracle = oracle or (lambda t: None)
        self.model = model; self.ts0 = ts0; self.init = init; self.unroll = unroll; self.keyfn = keyfn; self.argterms = args
        self.maxvisits = maxvisits
        self.phisrc = {}
        self.events = []; self.exits = []
        self.final = False
        self.oc = {}
        self.visits = 0
        self.assume0 = assume
        self.edges = set(); self.jc = {}; self.pids = {}; self.alloca = {}; self.heap = {}; self.vtype = {}

    # ---- values
    def orc(self, t):
        if t.op == 'c': return t
        r = self.oc.get(t)
        if r is None:
            v = self.oracle(t)
            r = t if v is None else (v if isinstance(v, Term) else C(int(v), t.w))
            self.oc[t] = r
        return r
    def width(self, ty):
        if ty is None: return 64
        if ty[0] == 'i' and ty[1:].isdigit(): return int(ty[1:])
        if ty == 'ptr': return 64
        if ty == 'float': return 32
        return 64
    def val(self, s, o, w=64):
        k = o['k']
        if k == 'c': return C(int(o['v']), o['w'])
        if k == 'v':
            t = s.env.get(o['i'])
            if t is None: t = mk('undefv', o['i'])
            return t
        if k == 'a': return self.arg(o['i'])
        if k == 'null': return NULL
        if k == 'g': return mk('glob', o['n'])
        if k == 'fp': return C(int(o['v']), o['w'])
        if k == 'undef': return mk('undef', 'const', w=w)
        if k == 'gep': return gep(self.val(s, o['base']), o['off'], [(self.val(s, t), sc) for t, sc in o['var']])
        if k == 'zero': return C(0, 64)
        if k == 'ce': return mk('ce', o['o'], *[self.val(s, x) for x in o['ops']])
        return mk('other', str(o.get('s')))
    def arg(self, i):
        if self.argterms and i in self.argterms: return self.argterms[i]
        return self.orc(mk('arg', i, w=self.width(self.fn.args[i]['t'])))
    # ---- facts
    def range(self, s, t):
        lo, hi = 0, (1 << t.w) - 1
        if isc(t): return cv(t), cv(t)
        r = s.rng.get(t)
        if r: lo, hi = max(lo, r[0]), min(hi, r[1])
        if t.op == 'zext':
            a, b = self.range(s, t.a[0]); lo, hi = max(lo, a), min(hi, b)
        elif t.op == 'sext':
            a, b = self.range(s, t.a[0])
            if b < 1 << (t.a[0].w - 1): lo, hi = max(lo, a), min(hi, b)
        elif t.op == 'and' and isc(t.a[1]): hi = min(hi, cv(t.a[1]))
        elif t.op == 'urem' and isc(t.a[1]) and cv(t.a[1]): hi = min(hi, cv(t.a[1]) - 1)
        elif t.op == 'add' and isc(t.a[1]):
            a, b = self.range(s, t.a[0]); c = cv(t.a[1])
            if b + c < (1 << t.w): lo, hi = max(lo, a + c), min(hi, b + c)
            elif a + c >= (1 << t.w): lo, hi = max(lo, a + c - (1 << t.w)), min(hi, b + c - (1 << t.w))
        elif t.op == 'trunc':
            a, b = self.range(s, t.a[0])
            if b < (1 << t.w): lo, hi = max(lo, a), min(hi, b)
        elif t.op == 'select':
            a, b = self.range(s, t.a[1]); c, d = self.range(s, t.a[2]); lo, hi = max(lo, min(a, c)), min(hi, max(b, d))
        elif t.op in ('udiv', 'lshr') and isc(t.a[1]):
            a, b = self.range(s, t.a[0])
            if t.op == 'udiv' and cv(t.a[1]): lo, hi = max(lo, a // cv(t.a[1])), min(hi, b // cv(t.a[1]))
            elif t.op == 'lshr' and cv(t.a[1]) < t.w: lo, hi = max(lo, a >> cv(t.a[1])), min(hi, b >> cv(t.a[1]))
        return lo, hi
    def below(self, s, a, b, strict):
        """a < b (or a <= b) follows from the comparisons known"""
        g = {}
        for t, v in s.facts.items():
            if t.op != 'icmp' or not isc(v): continue
            x, y = t.a[1], t.a[2]
            if t.a[0] == 'ult':
                if cv(v): g.setdefault(x, []).append((y, True))
                else: g.setdefault(y, []).append((x, s.facts.get(icmp('eq', x, y)) is FALSE))
            elif t.a[0] == 'eq' and cv(v): g.setdefault(x, []).append((y, False)); g.setdefault(y, []).append((x, False))
        seen = set(); todo = [(a, False)]
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            if n[0] is b and (n[1] or not strict): return True
            for y, st in g.get(n[0], ()): todo.append((y, n[1] or st))
        return False
    def known(self, s, t):
        """constant value of t in s, or t"""
        if isc(t): return t
        f = s.facts.get(t)
        if f is not None: return f
        o = self.orc(t) if t.op in ORC else t
        if isc(o): return o
        if t.op == 'not':
            x = self.known(s, t.a[0])
            if isc(x): return C(1 - cv(x), 1)
            return t
        if t.op == 'icmp':
            p, a, b = t.a
            ka, kb = self.known(s, a), self.known(s, b)
            if ka is not a or kb is not b:
                r = icmp(p, ka, kb)
                if isc(r): return r
                if r is not t: 
                    f = s.facts.get(r)
                    if f is not None: return f
                    if r.op == 'not':
                        f = s.facts.get(r.a[0])
                        if f is not None: return C(1 - cv(f), 1)
            al, ah = self.range(s, a); bl, bh = self.range(s, b)
            if p == 'eq':
                if ah < bl or bh < al: return FALSE
                if al == ah == bl == bh: return TRUE
                if self.order and (self.below(s, a, b, True) or self.below(s, b, a, True)): return FALSE
                # a==b given ult(a,b) or ult(b,a)
                if s.facts.get(mk('icmp', 'ult', a, b, w=1)) is TRUE or s.facts.get(mk('icmp', 'ult', b, a, w=1)) is TRUE: return FALSE
                if s.facts.get(mk('icmp', 'slt', a, b, w=1)) is TRUE or s.facts.get(mk('icmp', 'slt', b, a, w=1)) is TRUE: return FALSE
            elif p == 'ult':
                if ah < bl: return TRUE
                if al >= bh: return FALSE
                e = icmp('eq', a, b)
                if s.facts.get(e) is TRUE: return FALSE
                gt = s.facts.get(mk('icmp', 'ult', b, a, w=1))
                if gt is TRUE: return FALSE
                if gt is FALSE and s.facts.get(e) is FALSE: return TRUE
                if self.order:
                    if self.below(s, a, b, True): return TRUE
                    if self.below(s, b, a, False): return FALSE
                if a.op == 'add' and isc(a.a[1]) and cv(a.a[1]) == 1 and s.facts.get(mk('icmp', 'ult', a.a[0], b, w=1)) is TRUE and self.differs_from_last(s, a.a[0], b): return TRUE
                if isc(a) and 0 < cv(a) < 8 and bl >= cv(a) and self.differs_from_last(s, C(cv(a) - 1, a.w), b): return TRUE
            elif p == 'slt':
                m = 1 << (t.a[1].w - 1)
                if ah < m and bh < m:
                    if ah < bl: return TRUE
                    if al >= bh: return FALSE
                if s.facts.get(mk('icmp', 'slt', b, a, w=1)) is TRUE: return FALSE
            return t
        if t.op in ('and', 'or') and t.w == 1:
            x, y = self.known(s, t.a[0]), self.known(s, t.a[1])
            r = binop(t.op, 1, x, y)
            return r if isc(r) else t
        if t.op == 'xor' and t.w == 1:
            x, y = self.known(s, t.a[0]), self.known(s, t.a[1])
            if isc(x) and isc(y): return binop('xor', 1, x, y)
            return t
        if t.op in ('zext', 'sext', 'trunc'):
            x = self.known(s, t.a[0])
            if isc(x): return cast(t.op, t.w, x)
        if t.op == 'select':
            c = self.known(s, t.a[0])
            if isc(c): return self.known(s, t.a[1] if cv(c) else t.a[2])
        if t.op in ('add', 'mul', 'and', 'or', 'xor', 'sub', 'shl', 'lshr') :
            x, y = self.known(s, t.a[0]), self.known(s, t.a[1])
            if isc(x) and isc(y): return binop(t.op, t.w, x, y)
        lo, hi = self.range(s, t)
        if lo == hi and (lo or hi or t in s.rng): return C(lo, t.w)
        return t
    def differs_from_last(self, s, x, n):
        """x != n-1, because array elements x and n-1 are known to differ"""
        for f, v in s.facts.items():
            if v is not FALSE or f.op != 'icmp' or f.a[0] != 'eq' or not isc(f.a[2]): continue
            m = f.a[1]
            if m.op != 'mem0': continue
            if isc(x):
                if m.a[1] != cv(x) or m.a[2] != 1: continue
                l = mk('mem0', mk('idx', m.a[0], ((n, 1),)), -1, m.a[2], m.a[3], w=m.w)
            else:
                if m.a[0].op != 'idx' or m.a[0].a[1] != ((x, 1),) or m.a[1] != 0: continue
                l = mk('mem0', mk('idx', m.a[0].a[0], ((n, 1),)), -1, m.a[2], m.a[3], w=m.w)
            if s.facts.get(icmp('eq', l, f.a[2])) is TRUE or s.facts.get(l) is f.a[2]: return True
        return False
    def assume(self, s, t, v):
        """add t==v (i1); returns False if contradictory"""
        k = self.known(s, t)
        if isc(k): return cv(k) == v
        if t.op == 'not': return self.assume(s, t.a[0], 1 - v)
        s.facts[t] = C(v, 1)
        if t.op == 'and' and v: return self.assume(s, t.a[0], 1) and self.assume(s, t.a[1], 1)
        if t.op == 'or' and not v: return self.assume(s, t.a[0], 0) and self.assume(s, t.a[1], 0)
        if t.op == 'and' and not v:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                kx = self.known(s, x)
                if isc(kx) and cv(kx): return self.assume(s, y, 0)
        if t.op == 'or' and v:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                kx = self.known(s, x)
                if isc(kx) and not cv(kx): return self.assume(s, y, 1)
        if t.op == 'icmp':
            p, a, b = t.a
            a2, b2 = self.known(s, a), self.known(s, b)
            if p == 'eq' and v:
                if isc(b2): return self.setconst(s, a, b2)
                if isc(a2): return self.setconst(s, b, a2)
            elif p == 'eq':
                for x, c in ((a, b2), (b, a2)):
                    if isc(c):
                        lo, hi = self.range(s, x)
                        if lo == cv(c): lo += 1
                        if hi == cv(c): hi -= 1
                        if lo > hi: return False
                        self.setrng(s, x, lo, hi)
            elif p == 'ult':
                al, ah = self.range(s, a); bl, bh = self.range(s, b)
                if v:
                    if bh == 0: return False
                    self.setrng(s, a, al, min(ah, bh - 1)); self.setrng(s, b, max(bl, al + 1), bh)
                else:
                    self.setrng(s, a, max(al, bl), ah); self.setrng(s, b, bl, min(bh, ah))
            elif p == 'slt':
                m = 1 << (a.w - 1)
                bl, bh = self.range(s, b); al, ah = self.range(s, a)
                # a <s 0 false with b constant 0  => a in [0, m-1]
                if isc(b2):
                    c = sgn(cv(b2), a.w)
                    if not v and c >= 0: self.setrng(s, a, max(al, c), min(ah, m - 1))
                    if v and c <= 0: self.setrng(s, a, max(al, m), min(ah, (c - 1) & ((1 << a.w) - 1)))
                    if v and c > 0 and ah < m: self.setrng(s, a, al, min(ah, c - 1))
                if isc(a2):
                    c = sgn(cv(a2), a.w)
                    if v and c >= -1: self.setrng(s, b, max(bl, c + 1), min(bh, m - 1))
                    if not v and c >= 0 and bh < m: self.setrng(s, b, bl, min(bh, c))
        return True
    def setconst(self, s, t, c):
        k = self.known(s, t)
        if isc(k): return cv(k) == cv(c)
        lo, hi = self.range(s, t)
        if not lo <= cv(c) <= hi: return False
        s.facts[t] = c
        if t.op in ('zext',):
            return self.setconst(s, t.a[0], C(cv(c), t.a[0].w))
        if t.op == 'sext': return self.setconst(s, t.a[0], C(cv(c), t.a[0].w))
        if t.w == 1: return self.assume(s, t, cv(c)) if t.op in ('icmp', 'not', 'and', 'or') else True
        return True
    def setrng(self, s, t, lo, hi):
        if isc(t): return
        if lo > 0 or hi < (1 << t.w) - 1:
            o = s.rng.get(t)
            if o: lo, hi = max(lo, o[0]), min(hi, o[1])
            s.rng[t] = (lo, hi)
            if t.op == 'zext' or t.op == 'sext' and hi < 1 << (t.a[0].w - 1): self.setrng(s, t.a[0], lo, hi)
            if t.op == 'add' and isc(t.a[1]):
                c = cv(t.a[1])
                l0, h0 = self.range(s, t.a[0])
                if h0 + c < (1 << t.w) and lo >= c: self.setrng(s, t.a[0], lo - c, hi - c)
    # ---- memory
    def store(self, s, p, sz, v):
        b, o = split(p)
        cells = s.mem.setdefault(b, {})
        for k in [k for k, c in cells.items() if isinstance(k, int) and k < o + sz and o < k + c[0]]:
            n, old = cells.pop(k)
            # keep the parts that are not overwritten
            if k < o: cells[k] = (o - k, self.bytes(old, n, 0, o - k))
            if k + n > o + sz: cells[o + sz] = (k + n - o - sz, self.bytes(old, n, o + sz - k, k + n - o - sz))
        cells[o] = (sz, v)
        # may-alias: variable index into the same object
        r = root(p)
        for b2 in list(s.mem):
            if b2 is not b and root(b2) is r and (b2.op == 'idx' or b.op == 'idx'):
                self.havoc_base(s, b2, mk('st', self.cur))
        if b.op == 'idx': s.mem[mk('dirty', r)] = {TOPREG: mk('memh', self.cur, w=64)}
    def bytes(self, v, n, off, sz):
        if isc(v): return C(cv(v) >> (8 * off), 8 * sz)
        if v.op == 'zeros': return C(0, 8 * sz) if sz <= 16 else mk('zeros')
        if off == 0 and sz == n: return v
        if v.op == 'mem0': return self.orc(mk('mem0', v.a[0], v.a[1] + off, sz, v.a[3], w=8 * sz))
        if v.op in ('undef', 'uninit'): return mk('uninit', *v.a, w=8 * sz)
        if off == 0 and sz in (1, 2, 4, 8) and v.w == 8 * n and n <= 8 and v.op != 'in': return cast('trunc', 8 * sz, v)
        if v.op == 'in': return self.orc(mk('in', v.a[0], v.a[1] + off, sz, v.a[3], w=8 * sz))
        return mk('bytes', v, off, sz, w=8 * sz)
    def load(self, s, p, sz, w):
        b, o = split(p)
        cells = s.mem.get(b)
        if b.op == 'c':
            return mk('badload', b, o, w=w)
        hv = None
        if cells is not None:
            c = cells.get(o)
            if c and c[0] == sz: return self.fit(c[1], w)
            for k, c in cells.items():
                if isinstance(k, int) and k <= o and o + sz <= k + c[0]:
                    return self.fit(self.bytes(c[1], c[0], o - k, sz), w)
            ov = [(k, c[0], c[1]) for k, c in cells.items() if isinstance(k, int) and k < o + sz and o < k + c[0]]
            if ov:
                # reassemble constants; otherwise a mixed value
                parts = []; pos = o; ok = True
                for k, n, v in sorted(ov, key=lambda x: x[0]):
                    if k != pos: ok = False; break
                    parts.append((n, v)); pos = k + n
                if ok and pos == o + sz and all(isc(v) for _, v in parts):
                    r = 0; sh = 0
                    for n, v in parts: r |= cv(v) << sh; sh += 8 * n
                    return C(r, w)
                if ok and pos == o + sz and parts[0][1].w == 8 * parts[0][0] and 8 * sz <= 64 and all(isc(v) and cv(v) == 0 for _, v in parts[1:]):
                    return self.fit(cast('zext', 8 * sz, parts[0][1]), w)
                un = any(v.op == 'uninit' for _, _, v in ov) or (b.op == 'alloca' and not (ok and pos == o + sz) and TOPREG not in cells)
                return mk('mix' if not un else 'uninit', b, o, tuple((k, v) for k, n, v in ov), w=w)
            hv = cells.get(TOPREG)
        if b.op in ('vbeg', 'fwget') and (cells is None or self.exact and hv is None):
            import lib
            v = lib.element(self, b, o, sz)
            if v is not None: return self.fit(v, w)
        if b.op == 'idx' and hv is None:
            hv = s.mem.get(mk('dirty', root(b)), {}).get(TOPREG)
            if hv is None:
                hv = s.mem.get(root(b), {}).get(TOPREG)
                if hv is None and root(b).op in ('alloca', 'new', 'heap'):
                    rc = s.mem.get(root(b), {})
                    if any(isinstance(k, int) for k in rc): return mk('mix', b, o, tuple((k, c[1]) for k, c in sorted(rc.items()) if isinstance(k, int)), w=w)
                    return mk('uninit', b, o, w=w)
        g = b
        if g.op == 'glob':
            G = self.prog.globals.get(g.a[0])
            if G and G.get('const'):
                if 'zero' in G: return C(0, w)
                if 'int' in G and o == 0: return C(G['int'], w)
                if 'ints' in G and sz == G.get('esz') and o % sz == 0 and o // sz < len(G['ints']): return C(G['ints'][o // sz], w)
                if 'str' in G and sz == 1: return C(ord(G['str'][o]) if o < len(G['str']) else 0, w)
        if b.op in ('alloca', 'new', 'heap') and hv is None:
            return mk('uninit', b, o, w=w)
        if hv is not None and hv.op == 'memzero': return C(0, w)
        return self.orc(mk('mem0', b, o, sz, hv if hv is not None else 0, w=w))
    def fit(self, v, w):
        if v.w == w: return v
        if isc(v): return C(cv(v), w)
        if v.w > w: return cast('trunc', w, v)
        return mk('fit', v, w=w)
    def havoc_base(self, s, b, tag):
        s.mem[b] = {TOPREG: mk('memh', self.cur, w=64)}
    def havoc(self, s, p, tag):
        """forget everything reachable in the object that p points into"""
        r = root(p)
        if r.op == 'c': return
        for b2 in list(s.mem):
            if root(b2) is r: self.havoc_base(s, b2, tag)
        b, _ = split(p)
        self.havoc_base(s, b, tag)
        s.mem[mk('dirty', r)] = {TOPREG: mk('memh', self.cur, w=64)}
        for k in list(s.ver):
            if root(k) is r: s.ver[k] = mk('evv', self.cur, k)
        self.bump(s, p)
    def bump(self, s, p):
        """container at p changes: accessors give new terms"""
        s.ver[p] = mk('evv', self.cur)
    def version(self, s, p):
        v = s.ver.get(p)
        return v if v is not None else C(0)
    def memcpy(self, s, d, src, n):
        db, do = split(d); sb, so = split(src)
        scells = s.mem.get(sb, {})
        cells = s.mem.setdefault(db, {})
        for k in [k for k, (m, _) in ((k, v) for k, v in cells.items() if isinstance(k, int)) if k < do + n and do < k + m]:
            m, old = cells.pop(k)
            if k < do: cells[k] = (do - k, self.bytes(old, m, 0, do - k))
            if k + m > do + n: cells[do + n] = (k + m - do - n, self.bytes(old, m, do + n - k, k + m - do - n))
        pos = so
        for k in sorted(k for k in scells if isinstance(k, int)):
            m, v = scells[k]
            if k + m <= so or k >= so + n: continue
            lo, hi = max(k, so), min(k + m, so + n)
            if lo > pos: cells[do + pos - so] = (lo - pos, self.load(s, ptr(sb, pos), lo - pos, 8 * (lo - pos)))
            cells[do + lo - so] = (hi - lo, self.bytes(v, m, lo - k, hi - lo)); pos = hi
        esz = self.vtype.get(sb.a[0]) if self.exact and sb.op == 'vbeg' and not scells else None
        if esz in (1, 2, 4, 8):
            while pos % esz == 0 and pos + esz <= so + n: cells[do + pos - so] = (esz, self.load(s, ptr(sb, pos), esz, 8 * esz)); pos += esz
        if pos < so + n:
            cells[do + pos - so] = (so + n - pos, self.load(s, ptr(sb, pos), so + n - pos, 8 * (so + n - pos)))
    # ---- joins
    def join(self, blk, pk, old, new):
        """least upper bound of the state stored at (blk, partition pk) and an incoming one; returns (state, changed)"""
        import lib
        cnt = self.jc[(blk, pk)] = self.jc.get((blk, pk), 0) + 1
        changed = False
        pid = self.pids.setdefault(pk, len(self.pids) + 100000 * self.fid)
        def ph(key, w): return mk('phi', blk, key, pid, w=w)
        def isph(o, key): return o.op == 'phi' and o.a[0] == blk and o.a[2:] == (pid,) and o.a[1] == key
        stale = set(); pm = []       # pm: (phi, old value, new value)
        for k, v in new.env.items():
            o = old.env.get(k)
            if o is not None and isph(o, ('v', k)) and v is not o: stale.add(o)
        for p, v in new.ver.items():
            o = old.ver.get(p)
            if o is not None and isph(o, ('ver', p)) and v is not o: stale.add(o)
        for b, cells in new.mem.items():
            oc = old.mem.get(b)
            if oc:
                for k, cell in cells.items():
                    if isinstance(k, int) and k in oc:
                        o = oc[k][1]
                        if isph(o, ('m', b, k)) and cell[1] is not o: stale.add(o)
        def st(v): return bool(v.atoms & stale) if stale else False
        def phi(key, w, o, v):
            p = ph(key, w)
            pm.append((p, o, v))
            return p
        r = State(); r.ts = old.ts
        for k, o in old.env.items():
            v = new.env.get(k)
            if v is None: r.env[k] = o; continue
            if v is o and not st(v): r.env[k] = o
            else:
                p = r.env[k] = phi(('v', k), o.w, o, v)
                if o is not p: changed = True
        for k, v in new.env.items():
            if k not in old.env: r.env[k] = v; changed = True
        for b in set(old.mem) | set(new.mem):
            if st(b):
                if b in old.mem: changed = True
                continue
            oc = old.mem.get(b, {}); nc = new.mem.get(b, {})
            rc = {}
            ot, nt = oc.get(TOPREG), nc.get(TOPREG)
            if ot is nt:
                if ot is not None: rc[TOPREG] = ot
            else: rc[TOPREG] = mk('memh', ('j', blk, pid), b)
            for k in set(oc) | set(nc):
                if k == TOPREG: continue
                x, y = oc.get(k), nc.get(k)
                if x is not None and y is not None and x[0] == y[0] and x[1] is y[1] and not st(y[1]): rc[k] = x; continue
                if x is None:
                    sz = y[0]; xv = self.load(old, ptr(b, k), sz, y[1].w if y[1].w == 8 * sz or y[1].w == 1 else 8 * sz); yv = y[1]
                elif y is None:
                    sz = x[0]; yv = self.load(new, ptr(b, k), sz, x[1].w if x[1].w == 8 * sz or x[1].w == 1 else 8 * sz); xv = x[1]
                elif x[0] == y[0]: sz = x[0]; xv, yv = x[1], y[1]
                else:
                    sz = min(x[0], y[0]); xv = self.load(old, ptr(b, k), sz, 8 * sz); yv = self.load(new, ptr(b, k), sz, 8 * sz)
                if xv is yv and not st(yv): rc[k] = (sz, xv)
                else: rc[k] = (sz, phi(('m', b, k), xv.w, xv, yv))
            # drop overlapping cells after mixed sizes
            ks = sorted(k for k in rc if isinstance(k, int)); prev = None
            for k in ks:
                if prev is not None and k < prev + rc[prev][0]:
                    rc[prev] = (k - prev, ph(('m', b, prev), 8 * (k - prev)))
                prev = k
            if rc != oc: changed = True
            if rc: r.mem[b] = rc
        for p in set(old.ver) | set(new.ver):
            if st(p):
                if p in old.ver: changed = True
                continue
            x, y = lib.content(self, old, p), lib.content(self, new, p)
            if x is y and not st(y): r.ver[p] = x
            else:
                j = r.ver[p] = phi(('ver', p), 64, x, y)
                if x is not j: changed = True
        # facts that hold on both sides, also about the merged values
        p2o = {p: o for p, o, v in pm}; p2v = {p: v for p, o, v in pm}
        o2p = {}; v2p = {}
        for p, o, v in pm:
            if not isc(o) and o is not p: o2p.setdefault(o, p)
            if not isc(v) and v is not p: v2p.setdefault(v, p)
        def val(st_, f, m): return self.known(st_, subst(f, m.get) if m else f)
        for f, v in old.facts.items():
            ok = False
            if new.facts.get(f) is v and not st(f): ok = True
            elif val(new, f, {p: p2v[p] for p in f.atoms if p in p2v}) is v: ok = True
            if ok: r.facts[f] = v
            else: changed = True
        for src, mp, chk, cm, drop in ((new.facts, v2p, old, p2o, False), (old.facts, o2p, new, p2v, False)):
            if not mp: continue
            for f, v in list(src.items()):
                g = subst(f, mp.get)
                if g is f or g in r.facts or isc(g) or g.op not in ('icmp',): continue
                other = new if chk is old else old; om = p2v if chk is old else p2o
                if val(chk, g, cm) is v and val(other, g, om) is v: r.facts[g] = v
        # a fresh merge of constants: is it bounded by the size of a block on the heap?
        for p, o, v in pm:
            if p.w == 64 and isc(o):
                for n in set(self.heap.values()):
                    if n.w == 64 and not isc(n) and not st(n) and self.known(old, icmp('ult', o, n)) is TRUE and self.known(new, icmp('ult', v, n)) is TRUE: r.facts[icmp('ult', p, n)] = TRUE
        for f, v in new.facts.items():
            if f not in r.facts and not st(f) and f.op == 'icmp' and f not in old.facts and self.known(old, f) is v: r.facts[f] = v
        keys = set(old.rng) | set(new.rng) | set(t for t, v in old.facts.items() if t.w > 1 and isc(v)) | set(t for t, v in new.facts.items() if t.w > 1 and isc(v))
        keys |= set(p for p, o, v in pm if p.w > 1)
        for t in keys:
            if t in p2o: a, b2 = self.krange(old, p2o[t]), self.krange(new, p2v[t])
            elif st(t): 
                if t in old.rng: changed = True
                continue
            else: a, b2 = self.krange(old, t), self.krange(new, t)
            lo, hi = min(a[0], b2[0]), max(a[1], b2[1])
            if (lo, hi) != a and cnt > 6:
                if lo < a[0]: lo = max([x for x in self.thresh() if x <= lo] or [0])
                if hi > a[1]: hi = min([x for x in self.thresh() if x >= hi and x < 1 << t.w] or [(1 << t.w) - 1])
            if lo > 0 or hi < (1 << t.w) - 1: r.rng[t] = (lo, hi)
            if t in p2o:
                if old.rng.get(t) != r.rng.get(t): changed = True
            elif (lo, hi) != a: changed = True
        r.exc = old.exc if old.exc == new.exc else '?'
        if r.exc != old.exc: changed = True
        return r, changed
    def thresh(self):
        """bounds at which widening stops: the constants the function compares with"""
        T = getattr(self.fn, 'thresholds', None)
        if T is None:
            T = set()
            for b in self.fn.blocks:
                for i in b:
                    if i['o'] == 'icmp':
                        for x in i['a']:
                            if x['k'] == 'c':
                                v = int(x['v']) & ((1 << x['w']) - 1)
                                T |= {max(0, v - 1), v, v + 1}
            T = self.fn.thresholds = sorted(T)
        return T
    def krange(self, s, t):
        k = self.known(s, t)
        return self.range(s, k if isc(k) else t)
    def enter(self, pred, blk, s):
        """state flowing along pred->blk: evaluate phis"""
        vals = {}
        for i in self.fn.blocks[blk]:
            if i['o'] != 'phi': break
            for v, p in i['in']:
                if p == pred:
                    vals[i['i']] = self.val(s, v, self.width(i['t'])); break
        live = self.fn.livein[blk]
        n = s.copy()
        n.env = {k: v for k, v in s.env.items() if k in live}
        n.env.update(vals)
        if blk in self.fn.cyc and blk not in self.fn.heads and len(self.fn.pred[blk]) > 1: self.forget_block(n, blk)
        return n
    def forget_block(self, s, blk):
        """values merged at blk get a new meaning when it is entered again"""
        old = set()
        def look(t):
            for a in t.atoms:
                if a.op == 'phi' and a.a[0] == blk: old.add(a)
        for v in s.env.values(): look(v)
        for b, cells in s.mem.items():
            look(b)
            for k, c in cells.items():
                if isinstance(k, int): look(c[1])
        for t in s.facts: look(t)
        for t in s.rng: look(t)
        for t, v in s.ver.items(): look(t); look(v)
        self.cur = ('e', blk)
        for a in old: self.forget(s, a)
    def forget(self, s, atom):
        """the event/value `atom` is about to get a new meaning: drop everything that mentions it"""
        for k, v in s.env.items():
            if atom in v.atoms: s.env[k] = mk('phi', ('f', self.cur), ('v', k), w=v.w)
        for b, cells in s.mem.items():
            for k, c in cells.items():
                if isinstance(k, int) and atom in c[1].atoms: cells[k] = (c[0], mk('phi', ('f', self.cur), ('m', b, k), w=c[1].w))
        for b in [b for b in s.mem if atom in b.atoms]: del s.mem[b]
        for t in [t for t in s.facts if atom in t.atoms]: del s.facts[t]
        for t in [t for t in s.rng if atom in t.atoms]: del s.rng[t]
        for t in [t for t in s.ver if atom in t.atoms]: del s.ver[t]
        for t, v in s.ver.items():
            if atom in v.atoms: s.ver[t] = mk('phi', ('f', self.cur), ('ver', t))
    # ---- main
    def run(self):
        import lib
        s0 = State(); s0.ts = self.ts0
        if self.assume0:
            for t, v in self.assume0: self.assume(s0, t, v)
        if self.init: self.init(self, s0)
        self.cur = -1
        self.at = {}
        wl = Work(self.fn.rpo) if self.exact else set()
        key0 = self.key(0, s0)
        self.at[(0, key0)] = s0; wl.add((0, key0))
        self.contrib = {(0, key0): {None: s0}}; self.sent = {}; self.nvis = {}
        heads = self.fn.heads
        def refresh(k2):
            """state of a block that is no loop head: the join of what its predecessors sent last"""
            cs = list(self.contrib[k2].values())
            st = cs[0]
            for x in cs[1:]: st, _ = self.join(k2[0], k2[1], st, x)
            return st
        def drop(src, k2):
            cs = self.contrib.get(k2)
            if not cs or src not in cs or k2[0] in heads: return
            del cs[src]
            if not cs:
                self.contrib.pop(k2); self.at.pop(k2, None); wl.discard(k2)
                for k3 in self.sent.pop(k2, ()): drop(k2, k3)
            else:
                st = refresh(k2)
                if not same_state(st, self.at[k2]): self.at[k2] = st; wl.add(k2)
        while wl:
            bk = wl.pop() if self.exact else min(wl, key=lambda x: self.fn.rpo[x[0]])
            wl.discard(bk)
            self.visits += 1
            if self.visits % 64 == 0 and time.process_time() > DEADLINE[0]: raise AnalysisError('time is up in %s' % self.fn.name)
            if self.visits > self.maxvisits: raise AnalysisError('no fixpoint after %d steps in %s' % (self.visits, self.fn.name))
            n = self.nvis[bk] = self.nvis.get(bk, 0) + 1
            targets = {}
            for b2, st in self.block(bk[0], self.at[bk].copy()):
                k2 = (b2, self.key(b2, st))
                if k2 in targets: targets[k2] = self.join(b2, k2[1], targets[k2], st)[0]
                else: targets[k2] = st
            if n < 40:
                for k2 in self.sent.get(bk, ()):
                    if k2 not in targets: drop(bk, k2)
            self.sent[bk] = set(targets) | (self.sent.get(bk, set()) if n >= 40 else set())
            for k2, st in targets.items():
                cs = self.contrib.setdefault(k2, {}); cs[bk] = st
                if k2 not in self.at: self.at[k2] = st; wl.add(k2)
                elif k2[0] in heads or n >= 40:
                    j, ch = self.join(k2[0], k2[1], self.at[k2], st)
                    if ch: self.at[k2] = j; wl.add(k2)
                else:
                    st = refresh(k2)
                    if not same_state(st, self.at[k2]): self.at[k2] = st; wl.add(k2)
        for bk, ts in self.sent.items():
            for k2 in ts: self.edges.add((bk[0], k2[0]))
        self.phisrc = {}
        for (b, k), st in self.at.items():
            pid = self.pids.get(k)
            if pid is None: continue
            cs = list(self.contrib[(b, k)].values())
            def add(v, get):
                if v.op == 'phi' and v.a[0] == b and v.a[2:] == (pid,):
                    src = self.phisrc.setdefault(v, set())
                    for x in cs:
                        y = get(x)
                        if y is not None and y is not v: src.add(y)
            for i, v in st.env.items(): add(v, lambda x: x.env.get(i))
            for p, v in st.ver.items(): add(v, lambda x: x.ver[p] if p in x.ver else lib.content(self, x, p))
            for m, cells in st.mem.items():
                for o, cell in cells.items():
                    if isinstance(o, int): add(cell[1], lambda x: self.load(x, ptr(m, o), cell[0], cell[1].w))
        self.canonical()
        self.final = True; self.events = []; self.exits = []; self.fedges = []
        for (b, k) in sorted(self.at, key=lambda x: self.fn.rpo[x[0]]):
            self.block(b, self.at[(b, k)].copy(), k)
        return self
    def canonical(self):
        """replace merge terms which have a single source (loop invariants of nested loops) by that source"""
        triv = {}
        def res(t):
            n = 0
            while t in triv and n < 50: t = triv[t]; n += 1
            return t
        ch = True
        while ch:
            ch = False
            for p, src in self.phisrc.items():
                if p in triv: continue
                ss = {res(x) for x in src} - {p}
                if len(ss) == 1:
                    t = next(iter(ss))
                    if p not in subterms(t): triv[p] = t; ch = True
        if not triv: return
        memo = {}
        def f(t):
            if t.op == 'phi' and t in triv:
                r = res(t)
                return subst(r, f, memo) if r.op != 'phi' else r
            return None
        def g(t): return subst(t, f, memo)
        self.phisrc = {p: {g(x) for x in src} - {p} for p, src in self.phisrc.items() if p not in triv}
        for k, st in self.at.items():
            n = State(); n.ts = st.ts; n.exc = st.exc
            n.env = {i: g(v) for i, v in st.env.items()}
            n.facts = {}
            for t, v in st.facts.items():
                t2 = g(t)
                if not isc(t2): n.facts[t2] = g(v)
            n.rng = {g(t): v for t, v in st.rng.items()}
            n.ver = {g(t): g(v) for t, v in st.ver.items()}
            for b, cells in st.mem.items():
                n.mem.setdefault(g(b), {}).update({o if not isinstance(o, Term) else g(o): tuple(g(x) if isinstance(x, Term) else x for x in cell) if isinstance(cell, tuple) else cell for o, cell in cells.items()})
            self.at[k] = n
    def key(self, b, s):
        k = (s.ts, s.exc)
        fl = self.fn.flags
        cs = tuple(sorted((i, cv(v)) for i, v in s.env.items() if i in fl and isc(v))) if fl else ()
        k += (cs,)
        if self.unroll and b in self.fn.cyc:
            cs = []
            for i, v in s.env.items():
                if isc(v) and cv(v) < self.unroll and v.w > 1: cs.append((i, cv(v)))
                elif v.op in ('vbeg', 'ptr') and split(v)[0].op == 'vbeg' and 0 <= split(v)[1] < 4096: cs.append((i, v.id))
            k += (tuple(sorted(cs)),)
        if self.keyfn: k += (self.keyfn(self, b, s),)
        return k
    def ev(self, s, i, name, args, res, bk=None):
        if self.final:
            e = Event(); e.name = name; e.qual = self.prog.qual.get(name, name); e.args = args; e.state = s.copy(); e.ins = i; e.block = self.curb; e.fn = self.fn; e.res = res; e.key = s.ts
            self.events.append(e)
    def exit(self, kind, v, s, i):
        if self.final:
            x = Exit(); x.kind = kind; x.value = v; x.state = s; x.ins = i; x.block = self.curb; x.fn = self.fn
            self.exits.append(x)
    def block(self, b, s, k=None):
        """returns successor (block, state) list"""
        self.curb = b
        states = [s]
        ins = self.fn.blocks[b]
        out = []
        for i in ins:
            self.cur = i['i']
            if i['o'] == 'phi': continue
            nxt = []
            for s in states:
                r = self.step(b, i, s)
                if r is None: nxt.append(s)
                elif r[0] == 'go': out += r[1]
                elif r[0] == 'fork': nxt += r[1]; out += r[2]
            states = nxt
            if not states: break
        if self.final: self.fedges += [(b, k, b2, st.copy()) for b2, st in out]
        return [(b2, self.enter(b, b2, st)) for b2, st in out]
    def setv(self, s, i, t): s.env[i['i']] = self.orc(t) if t.op in ORC else t
    def step(self, b, i, s):
        o = i['o']
        w = self.width(i.get('t'))
        if o == 'load':
            p = self.val(s, i['a'][0])
            if self.exact and split(p)[0].op == 'oobp': self.exit('oob', split(p)[0], s, i); return ('go', [])
            if self.order and split(p)[0].op in ('uninit', 'badload'): self.exit('wild', split(p)[0], s, i); return ('go', [])
            self.setv(s, i, self.load(s, p, i['sz'], w)); 
            if self.final and i.get('sz'): self.ev(s, i, '!load', [p], s.env[i['i']])
        elif o == 'store':
            p = self.val(s, i['a'][1]); v = self.val(s, i['a'][0], 8 * i['sz'])
            if self.order and split(p)[0].op in ('uninit', 'badload'): self.exit('wild', split(p)[0], s, i); return ('go', [])
            if self.final: self.ev(s, i, '!store', [p, v], None)
            self.store(s, p, i['sz'], v)
        elif o == 'alloca':
            self.setv(s, i, mk('alloca', i['i'], self.fid) if self.fid else mk('alloca', i['i'])); self.alloca[i['i']] = i
            a = s.env[i['i']]
            s.mem.pop(a, None)
        elif o == 'getelementptr':
            self.setv(s, i, gep(self.val(s, i['base']), i['off'], [(self.known(s, self.val(s, t)), sc) for t, sc in i['var']]))
        elif o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.val(s, i['a'][0], w), self.val(s, i['a'][1], w)
            kx, ky = self.known(s, x), self.known(s, y)
            self.setv(s, i, binop(o, w, kx, ky))
        elif o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            self.setv(s, i, cast(o, w, self.known(s, self.val(s, i['a'][0]))))
        elif o == 'icmp':
            x, y = self.val(s, i['a'][0]), self.val(s, i['a'][1])
            t = icmp(i['p'], self.known(s, x), self.known(s, y))
            if x.op == 'tid': x, y = y, x
            if x.op == 'lpsel' and y.op == 'tid' and i['p'] in ('eq', 'ne'):
                c = self.prog.catches(y.a[0], x.a[0])
                if c is not None: t = C(c == (i['p'] == 'eq'), 1)
            k = self.known(s, t)
            self.setv(s, i, k if isc(k) else t)
        elif o == 'select':
            c = self.val(s, i['a'][0]); k = self.known(s, c)
            self.setv(s, i, select(k if isc(k) else c, self.val(s, i['a'][1], w), self.val(s, i['a'][2], w)))
        elif o in ('call', 'invoke'):
            return self.call(b, i, s)
        elif o == 'br':
            if len(i['a']) == 1: return ('go', [(i['a'][0]['i'], s)])
            c = self.val(s, i['a'][0]); k = self.known(s, c)
            # operands: cond, false, true
            fb, tb = i['a'][1]['i'], i['a'][2]['i']
            if isc(k): return ('go', [(tb if cv(k) else fb, s)])
            r = []
            for v, d in ((1, tb), (0, fb)):
                s2 = s.copy()
                if self.assume(s2, c, v): r.append((d, s2))
            return ('go', r)
        elif o == 'switch':
            c = self.val(s, i['c']); k = self.known(s, c)
            r = []; sd = s.copy(); okd = True
            for cval, d in i['cases']:
                cc = C(int(cval['v']), cval['w'])
                if isc(k):
                    if cv(k) == cv(cc): return ('go', [(d, s)])
                    continue
                s2 = s.copy()
                e = icmp('eq', c, cc)
                if self.assume(s2, e, 1): r.append((d, s2))
                if okd and not self.assume(sd, e, 0): okd = False
            if isc(k): return ('go', [(i['d'], s)])
            if okd: r.append((i['d'], sd))
            return ('go', r)
        elif o == 'ret':
            self.exit('ret', self.val(s, i['a'][0]) if i.get('a') else None, s, i); return ('go', [])
        elif o == 'resume':
            self.exit('throw', None, s, i); return ('go', [])
        elif o == 'unreachable':
            self.exit('unreachable', None, s, i); return ('go', [])
        elif o == 'landingpad':
            self.setv(s, i, mk('lp', 'r'))
            self.lpclauses = i
        elif o == 'extractvalue':
            x = self.val(s, i['a'][0])
            if x.op == 'lp':
                self.setv(s, i, mk('lpsel', s.exc or '?', w=32) if i['idx'][0] == 1 else mk('lpptr', x.a[0]))
            elif x.op == 'agg':
                self.setv(s, i, x.a[i['idx'][0]] if isinstance(x.a[i['idx'][0]], Term) else mk('undef', 'agg', w=w))
            else: self.setv(s, i, mk('extract', x, i['idx'][0], w=w))
        elif o == 'insertvalue':
            x = self.val(s, i['a'][0]); v = self.val(s, i['a'][1])
            if x.op == 'lp' or v.op in ('lpsel', 'lpptr'): self.setv(s, i, mk('lp', 'r'))
            else:
                l = list(x.a) if x.op == 'agg' else [0] * 8
                l[i['idx'][0]] = v
                self.setv(s, i, mk('agg', *l))
        elif o == 'fence': pass
        else:
            if o in ('atomicrmw', 'cmpxchg'): self.havoc(s, self.val(s, i['a'][0]), i['i'])
            self.setv(s, i, mk('op_' + o, *([i['p']] if 'p' in i else []), *[self.known(s, self.val(s, x)) for x in i.get('a', ()) if x['k'] != 'b'], w=w))
        return None
    # ---- calls
    def call(self, b, i, s):
        f = i.get('f')
        w = self.width(i.get('t'))
        inv = i['o'] == 'invoke'
        args = [self.known(s, self.val(s, a)) if a['k'] != 'v' or True else None for a in i['a']]
        if i.get('intr'):
            r = self.intrinsic(i, f, args, s, w)
            if inv: return ('go', [(i['n'], s)])
            return None
        name = f or 'indirect'
        if self.exact:
            for a in args:
                if split(a)[0].op == 'oobp': self.exit('oob', split(a)[0], s, i); return ('go', [])
        # a call in a loop: forget what the previous execution meant
        rt = mk('ev', i['i'], w=w) if not self.fid else mk('ev', i['i'], 0, self.fid, w=w)
        if self.exact and b in self.fn.cyc:
            k = mk('nev', i['i'], self.fid); n = s.ver.get(k)
            if n is None: s.ver[k] = C(1)
            elif isc(n): rt = mk('ev', i['i'], cv(n), self.fid, w=w) if self.fid else mk('ev', i['i'], cv(n), w=w); s.ver[k] = C(cv(n) + 1)
            else: self.forget(s, rt)
        elif b in self.fn.cyc: self.forget(s, rt)
        outs = None
        pre = s.copy() if self.final else None
        if self.model:
            outs = self.model(self, s, i, name, args, rt)
        if outs is None and self.exact and self.nest and name in self.prog.fn and len(self.frame) < 24:
            outs = self.nested(s, i, name, args, rt)
        if outs is None:
            outs = self.default(s, i, name, args, rt)
        norm = []; unw = []
        for o in outs:
            kind, s2, res = o
            if kind == 'ret':
                if res is not None and 't' in i: self.setv(s2, i, res)
                norm.append(s2)
            elif kind == 'throw':
                s2.exc = res; unw.append(s2)
        if self.final:
            e = Event(); e.name = name; e.qual = self.prog.qual.get(name, name); e.args = args; e.state = pre; e.ins = i; e.block = b; e.fn = self.fn
            e.res = norm[0].env.get(i['i']) if norm and 't' in i else None; e.key = pre.ts
            self.events.append(e)
        if self.nothrow: unw = [x for x in unw if x.exc != 'lib']      # failing allocations in library calls are another rule's business
        if inv:
            g = [(i['n'], x) for x in norm]
            for x in unw: g.append((i['u'], x))
            return ('go', g)
        for x in unw: self.exit('throw', None, x, i)
        if i.get('nr') and not norm: self.exit('noreturn', name, s, i)
        return ('fork', norm, [])
    def nested(self, s, i, name, args, rt):
        """a call of a function of the program (recursion), followed with the state at the call"""
        sub = Engine(self.prog, name, oracle=self.oracle, model=self.model, ts0=s.ts, unroll=self.unroll, keyfn=self.keyfn, maxvisits=self.maxvisits, args=dict(enumerate(args)), exact=True, nest=True, nothrow=self.nothrow, order=self.order)
        sub.frame = self.frame + (rt,); sub.fid = FRAMES.setdefault((sub.frame, name), len(FRAMES) + 1)
        sub.heap = self.heap; sub.vtype = self.vtype; sub.oc = self.oc
        def init(e, s0):
            s0.mem = {b: dict(c) for b, c in s.mem.items()}; s0.facts = dict(s.facts); s0.rng = dict(s.rng); s0.ver = dict(s.ver)
        sub.init = init
        sub.run()
        self.visits += sub.visits
        outs = []
        for x in sub.exits:
            if x.kind in ('ret', 'throw'):
                n = x.state.copy(); n.env = dict(s.env)
                if x.kind == 'ret': n.exc = s.exc; outs.append(('ret', n, x.value))
                else: outs.append(('throw', n, x.state.exc))
            elif self.final: self.exits.append(x)
        if self.final: self.events += sub.events
        return outs
    def intrinsic(self, i, f, args, s, w):
        if f.startswith('llvm.memcpy') or f.startswith('llvm.memmove'):
            if isc(args[2]):
                if self.final: self.ev(s, i, '!memcpy', args[:3], None)
                self.memcpy(s, args[0], args[1], cv(args[2]))
            else:
                if self.final: self.ev(s, i, '!memcpyn', args[:3], None)
                self.havoc(s, args[0], i['i'])
        elif f.startswith('llvm.memset'):
            if isc(args[2]) and isc(args[1]):
                n = cv(args[2]); b, o = split(args[0])
                v = cv(args[1])
                self.store(s, args[0], n, C(int.from_bytes(bytes([v & 255]) * n, 'little'), 8 * n) if n <= 64 else (mk('zeros', w=8 * n) if v == 0 else mk('memset', args[1], n, w=8 * n)))
            else: self.havoc(s, args[0], i['i'])
        elif f.startswith('llvm.eh.typeid.for'):
            self.setv(s, i, mk('tid', args[0].a[0] if args[0].op == 'glob' else '?', w=32))
        elif f.startswith('llvm.threadlocal.address'):
            self.setv(s, i, args[0])
        elif f.startswith('llvm.umul.with.overflow'):
            x = binop('mul', 64, args[0], args[1])
            ov = mk('umulov', args[0], args[1], w=1)
            if isc(args[0]) and isc(args[1]): ov = C(cv(args[0]) * cv(args[1]) >= 1 << 64, 1)
            else:
                lo, hi = self.range(s, args[0]); l2, h2 = self.range(s, args[1])
                if hi * h2 < 1 << 64: ov = FALSE
            self.setv(s, i, mk('agg', x, ov, 0, 0, 0, 0, 0, 0))
        elif f.startswith('llvm.uadd.with.overflow'):
            self.setv(s, i, mk('agg', binop('add', 64, args[0], args[1]), mk('uaddov', args[0], args[1], w=1) if not (isc(args[0]) and isc(args[1])) else FALSE, 0, 0, 0, 0, 0, 0))
        elif f.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            lt = icmp('ult' if f[5] == 'u' else 'slt', args[0], args[1])
            mx = f[6:9] == 'max'
            self.setv(s, i, select(lt, args[1] if mx else args[0], args[0] if mx else args[1]))
        elif 't' in i:
            self.setv(s, i, mk('intr', f, *args, w=w))
        return None
    def default(self, s, i, name, args, rt):
        import lib
        return lib.default(self, s, i, name, args, rt)

def run(prog, fn, **kw):
    try: return Result(Engine(prog, fn, **kw).run())
    except MemoryError: raise AnalysisError('too many states in %s' % fn) from None

class Result:
    def __init__(self, e): self.e = e; self.events = e.events; self.exits = e.exits
    def returns(self): return [x for x in self.exits if x.kind == 'ret']
    def throws(self): return [x for x in self.exits if x.kind == 'throw']
    def calls(self, rx):
        r = re.compile(rx)
        return [x for x in self.events if r.search(x.qual)]
    # provenance helpers -----------------------------------------------------
    def sources(self, t, seen=None):
        """non-phi terms that flow into t"""
        seen = set() if seen is None else seen
        if t in seen: return set()
        seen.add(t)
        if t.op == 'phi':
            r = set()
            for x in self.e.phisrc.get(t, ()): r |= self.sources(x, seen)
            return r
        return {t}
