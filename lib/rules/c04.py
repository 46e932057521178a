"""Typestate of the descriptor in openWithTimeout, over every outcome of open (failed, usable with select, too large for select), every
outcome of the wait (ready, timeout, error) and both kinds of timeout (zero, non-zero), on all paths including exceptional ones: opened
read-only and non-blocking; waited for with no time limit exactly if the timeout is zero and else with the given seconds; blocking mode
restored before the stream is handed out; closed exactly once, or owned by the closing source, on every path; returns exactly if data is
ready and throws otherwise. The C entry points pass name and timeout on."""
from rules.common import *

RULES = {'open-flags': 1, 'wait': 2, 'timeout': 2, 'blocking': 1, 'closed-once': 4, 'outcome': 4, 'arguments': 2}
NB = 0o4000

def bit(e, s, t, m, got):
    """value of bit m of t (0, 1 or None); got: the descriptor's own flags, opened non-blocking"""
    t = e.known(s, t)
    if isc(t): return int(bool(cv(t) & m))
    if t in got: return 1
    if t.op in ('and', 'or', 'xor'):
        x, y = bit(e, s, t.a[0], m, got), bit(e, s, t.a[1], m, got)
        if t.op == 'and': return 0 if 0 in (x, y) else None if None in (x, y) else 1
        if t.op == 'or': return 1 if 1 in (x, y) else None if None in (x, y) else 0
        return None if None in (x, y) else x ^ y
    return None

def check(c):
    for zero in (True, False): analyse(c, zero)
    passed(c)

# ts = (class of the descriptor, its state, outcome of the wait, 'nb'/'b'/'?', odd)
def analyse(c, zero):
    P = c.prog()
    hyp = 'timeout 0' if zero else 'timeout > 0'
    B = []; got = set(); fds = set(); U = []
    def bad(e, rule, what, i):
        if e.final: B.append((rule, what, locstr(i)))
    def unk(e, rule, what, i):
        if e.final: U.append((rule, what, locstr(i)))
    def isfd(e, s, t): 
        t = e.known(s, t)
        return t in fds or isc(t) and t.w == 32 and s.ts[0] == 'neg' and cv(t) == 0xffffffff
    def model(e, s, i, name, args, rt):
        sg = lib.sig(P, name)
        fd, st, wt, nb, odd = s.ts
        if name in ('open', 'open64', 'openat', 'openat64'):
            fl = args[2 if 'at' in name else 1] if len(args) > 1 else None
            fl = e.known(s, fl)
            if isc(fl):
                if cv(fl) & 3: bad(e, 'open-flags', 'the trace is not opened for reading only', i)
                elif not cv(fl) & NB: bad(e, 'open-flags', 'opening the trace may block', i)
                elif cv(fl) & 0o3100: bad(e, 'open-flags', 'opening the trace creates or truncates it', i)
                elif e.final: c.ok('open-flags', 1, 'flags %o at %s' % (cv(fl), locstr(i)))
            else: unk(e, 'open-flags', 'flags', i)
            if args[1 if 'at' in name else 0] is not A[0]: bad(e, 'open-flags', 'another file than the one named is opened', i)
            if st == 'open': bad(e, 'closed-once', 'the trace is opened again before it is closed', i)
            out = []
            s1 = s.copy(); s1.ts = ('neg', 'none', None, 'nb', odd); out.append(('ret', s1, C(0xffffffff, 32)))
            fds.add(rt)
            for cl, small in (('ok', 1), ('big', 0)):
                s2 = s.copy(); s2.ts = (cl, 'open', None, 'nb', odd)
                e.assume(s2, icmp('slt', rt, C(0, 32)), 0); e.assume(s2, icmp('slt', rt, C(1024, 32)), small)
                out.append(('ret', s2, rt))
            return out
        if name in ('select', 'pselect'):
            if fd == 'big': bad(e, 'wait', 'select is given a descriptor it cannot wait for', i)
            if fd == 'neg': bad(e, 'wait', 'select is called although opening failed', i)
            n = e.known(s, args[0])
            if not (isc(n) and cv(n) >= 1024):
                if n.op == 'add' and any(x in fds for x in n.a) and any(isc(x) and 0 < cv(x) < 1 << 30 for x in n.a): pass
                elif n in fds or isc(n): bad(e, 'wait', 'the number of descriptors given to select does not cover the trace', i)
                else: unk(e, 'wait', 'number of descriptors', i)
            if isc(args[1]): bad(e, 'wait', 'select does not wait for reading', i)
            for k in (2, 3):
                if not isc(args[k]): unk(e, 'wait', 'select waits for other events', i)
            t = e.known(s, args[4])
            if zero:
                if isc(t): e.final and c.ok('timeout', 1, 'no limit at %s' % locstr(i))
                elif t.op in ('alloca', 'ptr'): bad(e, 'timeout', 'a timeout of zero does not wait indefinitely', i)
                else: unk(e, 'timeout', 'limit %r' % t, i)
            elif isc(t): bad(e, 'timeout', 'a non-zero timeout waits indefinitely', i)
            elif root(t).op not in ('alloca', 'glob', 'new'): unk(e, 'timeout', 'limit %r' % t, i)
            else:
                sec, sub = e.known(s, e.load(s, t, 8, 64)), e.known(s, e.load(s, ptr(t, 8), 8, 64))
                if sec is not A[1]:
                    if sec.op == 'phi' or isc(sec) is False and sec.op in ('ev', 'hv'): unk(e, 'timeout', 'seconds %r' % sec, i)
                    else: bad(e, 'timeout', 'the wait is not limited to the requested seconds', i)
                elif isc(sub) and cv(sub) == 0: e.final and c.ok('timeout', 1, 'limit of the given seconds at %s' % locstr(i))
                elif isc(sub) or has_undef(e, sub): bad(e, 'timeout', 'the wait is not limited to the requested seconds (fraction)', i)
                else: unk(e, 'timeout', 'fraction', i)
            out = []
            for o, v in (('ready', 1), ('timeout', 0), ('error', 0xffffffff)):
                if o == 'timeout' and isc(t): continue
                s2 = s.copy(); s2.ts = (fd, st, o, nb, odd); out.append(('ret', s2, C(v, 32)))
            return out
        if name in ('poll', 'ppoll'):
            unk(e, 'timeout', 'poll', i)
            out = []
            for o, v in (('ready', 1), ('timeout', 0), ('error', 0xffffffff)):
                s2 = s.copy(); s2.ts = (fd, st, o, nb, odd); out.append(('ret', s2, C(v, 32)))
            return out
        if name in ('fcntl', 'fcntl64') and isfd(e, s, args[0]):
            k = e.known(s, args[1])
            if isc(k) and cv(k) == 3: got.add(rt); return [('ret', s, rt)]
            if isc(k) and cv(k) == 4:
                v = bit(e, s, args[2], NB, got)
                s.ts = (fd, st, wt, {0: 'b', 1: 'nb', None: '?'}[v], odd)
                return [('ret', s, rt)]
            return [('ret', s, rt)]
        if name in ('close',):
            if not isfd(e, s, args[0]):
                unk(e, 'closed-once', 'what is closed', i); return [('ret', s, rt)]
            if fd != 'neg':
                if st == 'closed': bad(e, 'closed-once', 'the descriptor is closed twice', i)
                if st == 'owned': bad(e, 'closed-once', 'the descriptor is closed although the stream owns it', i)
                s.ts = (fd, 'closed', wt, nb, odd)
            return [('ret', s, rt)]
        if 'boost::iostreams' in sg.full and any(isfd(e, s, a) for a in args[1:]):
            k = [j for j, a in enumerate(args) if j and isfd(e, s, a)][0]
            fl = e.known(s, args[k + 1]) if k + 1 < len(args) else None
            own = fl is not None and isc(fl) and cv(fl) & 1
            if fl is None or not isc(fl): unk(e, 'closed-once', 'does the stream own the descriptor?', i)
            if st == 'closed': bad(e, 'closed-once', 'the stream reads a descriptor that was closed', i)
            if sg.name == 'open': s.ts = (fd, 'owned' if own else st, wt, nb, odd); return [('ret', s, rt if 't' in i else None)]
            s2 = s.copy(); s2.ts = (fd, 'owned', wt, nb, odd | 1)
            s.ts = (fd, 'owned' if own else st, wt, nb, odd)
            return [('ret', s, rt if 't' in i else None), ('throw', s2, 'lib')]
        if any(isfd(e, s, a) for a in args) and name not in ('read', 'fstat', 'fstat64', 'isatty', '__fdelt_chk') and not name.startswith('llvm.'):
            s.ts = (fd, st, wt, nb, odd | 2); unk(e, 'closed-once', 'the descriptor is passed to %s' % sg.full[:60], i)
        return None
    r = c.run('e_open', model=model, ts0=(None, 'none', None, 'nb', 0), assume=[(icmp('eq', A[1], C(0)), 1)] if zero else [(icmp('eq', A[1], C(0)), 0)])
    for rule, what, loc in B: c.bad(rule, '%s (%s)' % (what, hyp), loc)
    for rule, what, loc in U: c.unknown(rule, what, loc)
    sel = [ev for ev in r.events if ev.name in ('select', 'pselect')]
    for ev in sel:
        st = [x for x in r.events if x.name == '!store' and root(x.args[0]) is root(ev.args[1]) and root(ev.args[1]).op == 'alloca']
        hit = [x for x in st if any(y in fds for a in x.args for y in closure(r.e, a))]
        if root(ev.args[1]).op != 'alloca': c.unknown('wait', 'set of descriptors', ev.loc)
        elif not hit: c.bad('wait', 'the descriptor is not in the set that is waited for', ev.loc)
        else:
            u = [x for x in hit if has_undef(r.e, x.args[1])]
            c.check(not u, 'wait', 'the set of descriptors holds nothing else' if not u else 'the set of descriptors is not cleared before use', hit[0].loc)
    if not sel and not any(ev.name in ('poll', 'ppoll') for ev in r.events):
        if any(rule == 'closed-once' for rule, _, _ in U): c.unknown('wait', 'no wait found')
        else: c.bad('wait', 'opening does not wait for data', 'Utils.hpp')
    for x in r.exits:
        fd, st, wt, nb, odd = x.state.ts
        if x.kind == 'ret':
            what = 'a stream is returned'
            if fd is None: c.unknown('outcome', 'nothing is opened'); continue
            if odd & 2: c.unknown('outcome', 'returned', x.loc); continue
            if fd == 'neg': c.bad('outcome', 'a stream is returned although the trace could not be opened', x.loc); continue
            if wt != 'ready':
                c.bad('outcome', 'a stream is returned although %s' % {None: 'nothing was waited for', 'timeout': 'no data arrived in time', 'error': 'waiting failed'}[wt] + ' (%s)' % hyp, x.loc); continue
            c.ok('outcome', 1, 'returned when data is ready (%s)' % hyp)
            if nb == '?': c.unknown('blocking', 'flags set', x.loc)
            else: c.check(nb == 'b', 'blocking', 'reading is blocking' if nb == 'b' else 'the descriptor is still non-blocking when the stream is returned', x.loc)
            if st == 'owned': c.ok('closed-once', 1, 'the stream owns the descriptor')
            elif st == 'closed': c.bad('closed-once', 'the descriptor of the returned stream is closed', x.loc)
            else: c.bad('closed-once', 'the descriptor of the returned stream is never closed', x.loc)
        elif x.kind == 'throw':
            if odd & 2: continue
            if fd in ('ok', 'big') and st == 'open':
                c.bad('closed-once', 'the descriptor leaks when %s (%s)' % ('it is too large for select' if fd == 'big' and wt is None else {None: 'an error is reported before the wait', 'ready': 'the stream cannot be built', 'timeout': 'no data arrives in time', 'error': 'waiting fails'}[wt], hyp), x.loc)
            elif odd & 1: c.unknown('closed-once', 'memory runs out while the source is built', x.loc)
            else: c.ok('closed-once', 1, 'nothing is left open (%s, %s)' % (fd, wt))
            if fd == 'ok' and wt == 'ready' and x.state.exc not in ('lib', '?'): c.bad('outcome', 'an error is reported although data is ready (%s)' % hyp, x.loc)
            else: c.ok('outcome', 1, 'an error is reported (%s, %s, %s)' % (fd, wt, hyp))
        elif x.kind == 'noreturn' and x.value in ('abort', 'exit', '_exit', '__assert_fail', '_ZSt9terminatev'):
            if x.value != '_ZSt9terminatev': c.bad('outcome', 'opening may end the process', x.loc)

def passed(c):
    P = c.prog('capi')
    for fn, nf, nt in (('read_trace', 0, 1), ('add_trace', 1, 2)):
        r = c.run(fn, cfg='capi')
        evs = [ev for ev in r.events if lib.sig(P, ev.name).name == 'openWithTimeout']
        if not evs: c.unknown('arguments', '%s does not call openWithTimeout' % fn); continue
        for ev in evs:
            c.check(ev.args[0] is A[nf] or ev.args[0].op in ('phi', 'ev'), 'arguments', '%s opens the file it was given' % fn, ev.loc)
            t = ev.args[1]
            while t.op in ('zext',): t = t.a[0]
            if t is A[nt] or t.op == 'arg' and t.a[0] == nt: c.ok('arguments', 1, '%s passes the timeout' % fn)
            elif t.op in ('phi', 'ev', 'hv'): c.unknown('arguments', 'timeout %r' % t, ev.loc)
            else: c.bad('arguments', '%s does not pass the requested timeout on' % fn, ev.loc, repr(t))
