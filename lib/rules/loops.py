"""Traversal of containers: which loops of a function step through a container from its beginning, and whether they can stop early."""
from rules.common import *

def natural(fn):
    """{head: body blocks}"""
    out = {}
    pred = {}
    for b, ss in enumerate(fn.succ):
        for x in ss: pred.setdefault(x, set()).add(b)
    for h in fn.heads:
        body = {h}; st = [u for u in pred.get(h, ()) if fn.rpo.get(u, -1) >= fn.rpo[h]] if isinstance(fn.rpo, dict) else [u for u in pred.get(h, ()) if fn.rpo[u] >= fn.rpo[h]]
        while st:
            u = st.pop()
            if u in body: continue
            body.add(u); st += list(pred.get(u, ()))
        out[h] = body
    return out
class Iter:
    def __repr__(self): return 'Iter(%s %s)' % (self.kind, self.head)
def iters(r):
    """iteration variables: pointer (from vbeg, constant step) and index (from 0, step 1)"""
    out = []
    for p, src in r.e.phisrc.items():
        if p.a[0] not in r.e.fn.heads: continue
        init = []; step = []
        for x in src:
            (step if x is not p and split_step(p, x) is not None else init).append(x)
        if len(init) != 1 or len(step) != 1: continue
        i = Iter(); i.phi = p; i.head = p.a[0]; i.init = init[0]; i.step = split_step(p, step[0])
        if init[0].op == 'vbeg': i.kind = 'ptr'; i.cont = init[0].a[0]
        elif isc(init[0]) and cv(init[0]) == 0 and i.step == 1: i.kind = 'idx'; i.cont = None
        else: continue
        out.append(i)
    return out
def split_step(p, x):
    if x.op == 'add' and x.a[0] is p and isc(x.a[1]): return cv(x.a[1])
    if x.op == 'add' and x.a[1] is p and isc(x.a[0]): return cv(x.a[0])
    b, o = split(x)
    if b is p and o: return o
    return None
def reaches_return(r):
    """blocks from which a normal return is reachable in the analysed graph"""
    pred = {}
    for b, k, b2, st in r.e.fedges: pred.setdefault(b2, set()).add(b)
    st = [x.block for x in r.returns()]; seen = set()
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st += list(pred.get(b, ()))
    return seen
def at_end(r, s, it, cont, size):
    """is the iteration at the end of the container in state s? True / False (elements remain) / None"""
    e = r.e
    if it.kind == 'ptr':
        if it.cont is not cont: return None
        end = gep(it.init, 0, [(size, it.step)])
        k = e.known(s, icmp('eq', it.phi, end))
        return bool(cv(k)) if isc(k) else None
    p = it.phi
    for x in ([cast('zext', 64, p)] if p.w < 64 else [p]):
        k = e.known(s, icmp('ult', x, size))
        if isc(k): return not cv(k)
        k = e.known(s, icmp('eq', x, size))
        if isc(k) and cv(k): return True
    if p.w < 64:
        k = e.known(s, icmp('ult', p, cast('trunc', p.w, size)))
        if isc(k) and not cv(k): return None    # wraps for huge containers: not decided here
    return None
def covered(r, cont, size=None, within=None):
    """loops over the container: list of (Iter, verdict, block): verdict True (left only at the end), False (may be left early), None"""
    size = lib.vsize(cont) if size is None else size
    nat = natural(r.e.fn); rr = reaches_return(r)
    out = []
    for it in iters(r):
        body = nat[it.head]
        if within is not None and not (within & body): continue
        v = None; loc = None; n = 0; verdicts = []
        for b, k, b2, st in r.e.fedges:
            if b in body and b2 not in body and b2 in rr:
                # the iteration variable must be the one of this partition
                if not any(t is it.phi for t in st.env.values()): continue
                verdicts.append((at_end(r, st, it, cont, size), b))
        if not verdicts or all(x is None for x, b in verdicts): continue
        bad = [b for x, b in verdicts if x is False]
        if bad: out.append((it, False, bad[0]))
        elif all(x for x, b in verdicts): out.append((it, True, None))
        else: out.append((it, None, None))
    return out
def blockloc(fn, b):
    for i in fn.blocks[b]:
        l = locstr(i)
        if l and not l.startswith('?') and 'include' not in l: return l
    return '?'
def cover(c, r, rule, what, cont, size=None):
    """every element of the container is visited"""
    vs = covered(r, cont, size)
    if any(v is False for _, v, _ in vs):
        b = [b for _, v, b in vs if v is False][0]
        if any(v is True for _, v, _ in vs): c.unknown(rule, what); return
        c.bad(rule, what + ': the loop may end before the last one', blockloc(r.e.fn, b))
    elif any(v for _, v, _ in vs): c.ok(rule, 1, what)
    else: c.unknown(rule, what + ': no loop over the container was recognised')

def narrow(P, name, least=32):
    """loop counters of fewer bits than the bound they are compared with: (location, bits) of each such comparison, and the number looked at"""
    f = P.get(name); ins = {}; blk = {}
    for b, l in enumerate(f.blocks):
        for i in l: ins[i['i']] = i; blk[i['i']] = b
    out = []; n = 0
    def const(o): return o['k'] in ('c', 'null', 'fp')
    def counter(o, w):
        """a value of w bits that is counted up in a loop"""
        i = ins.get(o.get('i')) if o['k'] == 'v' else None
        if i is None: return False
        seen = set(); st = [i]
        while st:
            x = st.pop()
            if x['i'] in seen: continue
            seen.add(x['i'])
            if x['o'] == 'phi' and blk[x['i']] in f.heads: return True
            if x['o'] in ('add', 'trunc', 'zext', 'sext', 'phi'):
                for a in x.get('a', []) + [v for v, _ in x.get('in', [])]:
                    if a['k'] == 'v' and a['i'] in ins: st.append(ins[a['i']])
        return False
    for i in ins.values():
        if i['o'] != 'icmp' or blk[i['i']] not in f.cyc: continue
        n += 1
        for x, y in (i['a'], i['a'][::-1]):
            if const(y) or x['k'] != 'v': continue
            z = ins.get(x['i'])
            if z is None or z['o'] not in ('zext', 'sext'): continue
            src = ins.get(z['a'][0].get('i')) if z['a'][0]['k'] == 'v' else None
            if src is None: continue
            w = int(src['t'][1:]) if src.get('t', '')[:1] == 'i' and src['t'][1:].isdigit() else 64
            if 1 < w < least and counter(z['a'][0], w):
                yw = ins.get(y['i']) if y['k'] == 'v' else None
                if yw is not None and yw['o'] in ('zext', 'sext') and yw['a'][0]['k'] == 'v' and ins.get(yw['a'][0]['i'], {}).get('t') == src['t']: continue
                out.append((locstr(i), w))
    return out, n
def narrow_rule(c, P, fns, rule, what):
    for fn in fns:
        try: bad, n = narrow(P, fn)
        except AnalysisError: continue
        c.fns.add(fn)
        if n: c.ok(rule, n, '%s: loop counters of %s' % (what, fn))
        for loc, w in bad: c.bad(rule, '%s: a loop counter of %d bits cannot count all of them' % (what, w), loc)
