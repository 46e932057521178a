"""Ownership typestate over the C entry points read_trace, add_trace and deserialize_trace_db, on every path including every exceptional
edge: each object allocated (stream buffer, stream, trace, database) is live until it is deleted, deleted at most once, never used
afterwards, and dead at every return unless it is the returned result. No exceptional exit exists (every exception thrown by the library
derives from std::exception and is caught), paths through a handler return 0, the others a non-zero result, and a trace is appended
only on paths that succeed, once, after its constructor has read it."""
from rules.common import *
import stream

RULES = {'no-escape': 3, 'released': 3, 'double-release': 3, 'result': 3, 'append-after-read': 1, 'exception-type': 5}
FREE = ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t')
ENTRIES = ['read_trace', 'add_trace', 'deserialize_trace_db']

def check(c):
    P = c.prog('capi')
    for fn in ENTRIES: entry(c, P, fn)
    throws(c)
    aborts(c)

class TS(tuple): pass
# ts = (live sites, freed sites, caught, pushes, objects that were read)
def entry(c, P, fn):
    problems = []
    TY = ['lib'] + sorted({i['a'][1]['n'] for f in c.prog().fn.values() for b in f.blocks for i in b if i.get('f') == '__cxa_throw' and i['a'][1]['k'] == 'g'})
    def release(e, s, i, p):
        r = root(p)
        if r.op != 'new': return
        live, freed, caught, pushed, readobj = s.ts
        k = r.a[0].a[0]
        if k in live: s.ts = (live - {k}, freed | {k}, caught, pushed, readobj)
        elif k in freed and e.final: problems.append(('double-release', 'an object is released twice', locstr(i)))
    def model(e, s, i, name, args, rt):
        sg = lib.sig(P, name)
        if name in ('_Znwm', '_Znam'):
            r = e.default(s, i, name, args, rt)
            for k, s2, v in r:
                if k == 'ret': s2.ts = (s2.ts[0] | {i['i']}, s2.ts[1] - {i['i']}) + s2.ts[2:]
            return r
        if name in FREE: release(e, s, i, args[0]); return [('ret', s, None)]
        if name == 'indirect' and args and root(args[0]).op == 'new' and len(args) == 1:
            fv = e.val(s, i['fv']) if 'fv' in i else None
            if fv is not None and fv.op == 'mem0' and fv.a[1] == 8:
                release(e, s, i, args[0]); return [('ret', s, None)]
        if sg.name == 'openWithTimeout':
            s2 = s.copy()
            s.ts = (s.ts[0] | {i['i']}, s.ts[1] - {i['i']}) + s.ts[2:]
            return [('ret', s, mk('new', rt))] + [('throw', s2.copy(), t) for t in TY]
        if name == '__cxa_begin_catch': s.ts = s.ts[:2] + (1,) + s.ts[3:]; return None
        if sg.cls in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_count'):
            for a in args[1:]:
                if root(a).op == 'new': s.ts = (s.ts[0] - {root(a).a[0].a[0]},) + s.ts[1:]
            return None
        if sg.cls == 'Trace' and sg.name == 'read' or sg.cls == 'TracePoint' and sg.name == 'read':
            r = e.default(s, i, name, args, rt)
            o = repr(root(args[0]))
            if any(k == 'throw' for k, s2, v in r): r += [('throw', s.copy(), t) for t in TY if t != 'lib']
            for k, s2, v in r:
                if k == 'ret' and sg.cls == 'Trace': s2.ts = s2.ts[:4] + (s2.ts[4] | {o},)
            return r
        if sg.cls == 'std::vector' and sg.name in ('push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'clear', 'pop_back', 'erase') and sg.targs and lib.base_type(sg.targs[0]) == 'Trace' and root(args[0]) is A[0]:
            if sg.name not in ('push_back', 'emplace_back'):
                if e.final: problems.append(('append-after-read', 'the collection of traces is changed by %s' % sg.name, locstr(i)))
                return None
            r = e.default(s, i, name, args, rt)
            for k, s2, v in r:
                if k == 'ret': s2.ts = s2.ts[:3] + (min(2, s2.ts[3] + 1), s2.ts[4])
            if e.final and len(args) > 1 and fn == 'add_trace':
                o = repr(root(args[1]))
                if o in s.ts[4]: c.ok('append-after-read', 1, 'the trace read is appended at %s' % locstr(i))
                elif root(args[1]).op in ('alloca', 'new') and s.ts[4]: c.unknown('append-after-read', 'another object than the one read is appended', locstr(i))
                elif root(args[1]).op in ('alloca', 'new') and any_read(P, fn): problems.append(('append-after-read', 'a trace is appended before it was read', locstr(i)))
                else: c.unknown('append-after-read', 'the appended trace', locstr(i))
            return r
        return None
    E0 = frozenset()
    r = c.run(fn, cfg='capi', model=model, ts0=(E0, E0, 0, 0, E0))
    for rule, what, loc in problems: c.bad(rule, '%s: %s' % (fn, what), loc)
    if not problems: c.ok('double-release', 1, fn)
    for ev in r.events:
        if ev.name.startswith('!') and ev.name != '!load': continue
        for a in ev.args:
            if isinstance(a, Term) and root(a).op == 'new' and root(a).a[0].a[0] in ev.state.ts[1] and ev.name not in FREE and ev.name != '!store':
                c.bad('double-release', '%s: an object is used after it was released' % fn, ev.loc)
    for x in r.exits:
        if x.kind == 'throw': c.bad('no-escape', '%s: an exception escapes to the caller' % fn, where(r, x), repr(x.state.exc))
    if not r.throws(): c.ok('no-escape', 1, fn)
    okret = failret = 0
    for x in r.returns():
        live, freed, caught, pushed, rd = x.state.ts
        v = r.e.known(x.state, x.value)
        rv = root(v)
        res = rv.a[0].a[0] if rv.op == 'new' else None
        zero = isc(v) and cv(v) == 0
        nonzero = isc(v) and cv(v) != 0 or res is not None
        if res is not None and res in freed: c.bad('released', '%s: the result was already released' % fn, x.loc)
        left = live - ({res} if res is not None else set())
        if fn == 'deserialize_trace_db' or fn == 'read_trace':
            if res is None and not zero:
                c.unknown('result', '%s returns %r' % (fn, v), x.loc)
        c.check(not left, 'released', '%s: %s on a path that %s' % (fn, 'everything is released' if not left else '%d object(s) allocated at %s are not released' % (len(left), sites(r, left)), 'fails' if caught else 'succeeds'), sites(r, left) if left else x.loc)
        if caught: failret += 1; c.check(zero or not nonzero and v.op not in ('c',), 'result', '%s: failure is reported' % fn if zero else '%s: success is reported although reading failed' % fn, catchloc(r))
        else: okret += 1; c.check(not zero, 'result', '%s: success is reported as such' % fn, x.loc, repr(v))
        if fn == 'add_trace':
            if zero or caught: c.check(not pushed, 'append-after-read', 'add_trace: the database is left as it was on failure', catchloc(r))
            else: c.check(pushed == 1, 'append-after-read', 'add_trace: exactly one trace is appended on success', x.loc, str(pushed))
        if fn != 'add_trace' and res is None and not zero: pass
    if not okret: c.bad('result', '%s never succeeds' % fn, '?')
    if not failret and not r.throws(): c.unknown('result', '%s has no handler' % fn)
    # a database or trace that was handed in is not destroyed
def any_read(P, fn):
    return any(i.get('f') and lib.sig(P, i['f']).cls == 'Trace' and lib.sig(P, i['f']).name == 'read' for b in P.get(fn).blocks for i in b)
def sites(r, ks):
    out = []
    for b in r.e.fn.blocks:
        for i in b:
            if i['i'] in ks: out.append(locstr(i))
    return ', '.join(sorted(out)) or '?'
def catchloc(r):
    for ev in r.events:
        if ev.name == '__cxa_begin_catch': return ev.loc
    return '?'
def where(r, x):
    return x.loc

def throws(c):
    """everything thrown derives from std::exception"""
    P = c.prog()
    seen = set()
    for f in P.fn.values():
        for b in f.blocks:
            for i in b:
                if i.get('f') == '__cxa_throw' and i['a'][1]['k'] == 'g':
                    k = (i['a'][1]['n'], locstr(i))
                    if k in seen: continue
                    seen.add(k)
                    ok = P.catches('_ZTISt9exception', k[0])
                    c.check(ok, 'exception-type', 'exception %s thrown at %s derives from std::exception' % k if ok else 'an exception is thrown that the C interface does not catch', k[1], k[0])
def aborts(c):
    """reading a trace does not end the process"""
    P = c.prog('nomap')
    r = c.run('e_Trace_read', cfg='nomap', model=lambda *a: stream.call(*a), ts0=('G',))
    bad = [x for x in r.exits if x.kind == 'noreturn' and x.value in ('abort', 'exit', '__assert_fail', '_exit', '_ZSt9terminatev')]
    for x in bad: c.bad('no-escape', 'reading a malformed trace ends the process', x.loc)
    if not bad: c.ok('no-escape', 1, 'reading a trace never ends the process')
