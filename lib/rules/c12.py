"""Lockset analysis. The set of locks held is carried through every operation on normal and exceptional paths. Every addition to the
traces of a database happens with a lock held that belongs to that database, and no path leaves an operation with a lock held or takes a
lock twice. Data which an operation on a constant trace or database (reading, querying, copying, comparing, writing) changes is only
accessed with a common lock of the same object held. Variables of static storage duration that are not constant are thread local, atomic,
only written by their guarded initialisation, or only accessed with a common lock. No function with hidden shared state is called and
shared values (flyweights) are stored with locking."""
from rules.common import *
import stream

RULES = {'add-locked': 3, 'released': 10, 'const-operation': 30, 'static-state': 1, 'shared-calls': 20, 'flyweight-locking': 2}
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex', 'std::recursive_timed_mutex', 'std::__mutex_base', 'boost::mutex')
UNSAFE = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'drand48', 'lrand48', 'mrand48', 'erand48', 'srand48', 'setenv', 'putenv', 'unsetenv', 'setlocale', 'getpwnam', 'getpwuid', 'ecvt', 'fcvt', 'basename', 'dirname', 'hcreate', 'hsearch', 'readdir', 'inet_ntoa', 'gethostbyname', 'strsignal', 'ttyname', 'getlogin', 'chdir', 'umask'}

class Locks:
    """ts = (locks held, initialisations in progress)"""
    def __init__(self, c, P, what): self.c = c; self.P = P; self.what = what; self.B = []; self.U = []
    def model(self, e, s, i, name, args, rt):
        sg = lib.sig(self.P, name)
        held, init = s.ts[:2]
        op = None
        if sg.cls in MUTEX and sg.name in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared', 'try_lock_shared'): op = sg.name; m = args[0]
        elif name in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'): op = {'k': 'lock'}.get(name) or name[14:].replace('trylock', 'try_lock'); m = args[0]
        elif name == '__cxa_guard_acquire':
            s2 = s.copy(); s2.ts = (held, init + (args[0],)) + s.ts[2:]
            return [('ret', s, C(0, 32)), ('ret', s2, C(1, 32))]
        elif name in ('__cxa_guard_release', '__cxa_guard_abort'):
            s.ts = (held, tuple(x for x in init if x is not args[0])) + s.ts[2:]
            return [('ret', s, None)]
        if op is None: return None
        w = e.width(i['t']) if i.get('t') else 32
        if op in ('lock', 'lock_shared'):
            if m in held:
                if e.final: self.B.append(('released', '%s: a lock that is already held is taken again' % self.what, locstr(i)))
                return [('ret', s, C(0, w))]
            s2 = s.copy(); s.ts = (held + (m,), init) + s.ts[2:]
            return [('ret', s, C(0, w)), ('throw', s2, 'lib')]
        if op.startswith('try'):
            s2 = s.copy(); s.ts = (held + (m,), init) + s.ts[2:]
            ok = 0 if name.startswith('pthread') else 1
            return [('ret', s, C(ok, w)), ('ret', s2, C(1 - ok, w))]
        if m not in held:
            if e.final: self.U.append(('released', '%s: a lock is released that is not known to be held' % self.what, locstr(i)))
        s.ts = (tuple(x for x in held if x is not m), init) + s.ts[2:]
        return [('ret', s, C(0, w))]
    def run(self, fn, **kw):
        r = self.c.run(fn, model=self.model, ts0=((), ()), **kw)
        for rule, w, l in self.B: self.c.bad(rule, w, l)
        for rule, w, l in self.U: self.c.unknown(rule, w, l)
        for x in r.exits:
            if x.state.ts[0]: self.c.bad('released', '%s: a lock is still held when %s' % (self.what, 'it returns' if x.kind == 'ret' else 'an exception leaves it'), lockloc(self.P, r))
            else: self.c.ok('released', 1, self.what)
        return r
def lockloc(P, r):
    for ev in r.events:
        if lib.sig(P, ev.name).cls in MUTEX or ev.name.startswith('pthread_mutex'): return ev.loc
    return '?'

def chain(t):
    """the objects that t is a part of"""
    out = []
    for n in range(8):
        b, o = split(t); out.append(b)
        rt = root(t)
        if rt.op == 'mapel': t = rt.a[0]
        elif rt.op == 'vbeg' and rt.a[0].op == 'cont0': t = rt.a[0].a[0]
        else: break
    return out[:-1]
def accesses(P, r, bases):
    """(base, offset, 'R'|'W', event) of the memory of the objects at bases"""
    out = []
    def owner(t, deep=False, n=0):
        b, o = split(t)
        for x in bases:
            if b is x: return x, o, deep
            if b.op == 'idx' and root(b) is x: return x, None, deep
        rt = root(t)
        if n > 6: return None
        if rt.op == 'mapel': return owner(rt.a[0], True, n + 1)
        if rt.op == 'vbeg' and rt.a[0].op == 'cont0': return owner(rt.a[0].a[0], True, n + 1)
        if rt.op == 'glob' : return None
        return None
    for ev in r.events:
        if ev.name == '!load': l = [(ev.args[0], 'R')]
        elif ev.name == '!store': l = [(ev.args[0], 'W')]
        elif ev.name in ('!memcpy', '!memcpyn', '!memset'): l = [(ev.args[0], 'W')] + [(a, 'R') for a in ev.args[1:2]]
        elif ev.name.startswith('!'): continue
        else:
            sg = lib.sig(P, ev.name)
            if sg.cls in MUTEX or ev.name.startswith('pthread_') or ev.name in ('memcmp', 'bcmp', 'strlen'): continue
            sh = len(ev.args) - len(sg.params) if sg.params is not None else 0
            l = []
            for j, a in enumerate(ev.args):
                if not isinstance(a, Term): continue
                if j < sh:
                    # the object itself (or the place of the result)
                    ro = sg.const or sg.name in READONLY
                    l.append((a, 'R' if ro else 'W'))
                else:
                    t = sg.params[j - sh]
                    if indirect(t): l.append((a, 'R' if 'const' in t.split('&')[0].split('*')[-1] or t.rstrip().endswith('const&') or 'const' in t[-8:] else 'W' if not t.rstrip().endswith('*') else 'R'))
        for a, k in l:
            if not isinstance(a, Term) or isc(a): continue
            o = owner(a)
            if o and o[2] and k == 'W' and [m for m in ev.state.ts[0] if split(m)[0] in chain(a)]: continue     # part of an object with a lock of its own, which is held
            if o and not (o[2] and k == 'R'): out.append((o[0], o[1], k, ev))
    return out
READONLY = {'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'at', 'lower_bound', 'upper_bound', 'front', 'back', 'data', 'get', 'c_str', 'length', 'rbegin', 'rend', 'capacity', 'max_size', 'key_comp', 'hash_function'}
def indirect(t): return t.rstrip().endswith('&') or t.rstrip().endswith('*')

def member(P, cls, off):
    r = P.records.get(cls)
    if off is None or not r: return None
    for m in lib.fields(P, r):
        if m['off'] <= off < m['off'] + max(1, m['s']): return m
    return None

def check(c):
    P = c.prog()
    runs = {}
    # ---- additions
    tf = field(P, 'TraceDB', 'getTraces')
    for fn in ('e_TraceDB_addTrace', 'add_trace', 'add_trace_points'):
        cfg = 'capi' if fn == 'add_trace' else 'base'
        L = Locks(c, c.prog(cfg), fn.replace('e_TraceDB_', 'TraceDB::')); r = L.run(fn, cfg=cfg)
        n = 0
        for base, off, k, ev in accesses(c.prog(cfg), r, [A[0]]):
            if k != 'W' or off is None or not (off <= tf.off < off + 24 and off >= tf.off): continue
            n += 1
            held = ev.state.ts[0]
            mine = [m for m in held if root(m) is A[0] or root(m).op == 'glob']
            if mine: c.ok('add-locked', 1, '%s changes the traces with the lock held' % L.what)
            elif held: c.bad('add-locked', '%s: the traces are changed with a lock that does not belong to the database' % L.what, ev.loc, repr(held))
            else: c.bad('add-locked', '%s: the traces are changed without the lock' % L.what, ev.loc)
        if not n: c.unknown('add-locked', '%s: no change of the traces was recognised' % L.what)
        runs[fn] = r
    # all additions use the same lock
    ms = set()
    for fn in runs:
        for base, off, k, ev in accesses(c.prog('capi' if fn == 'add_trace' else 'base'), runs[fn], [A[0]]):
            if k == 'W' and off == tf.off: ms.add(frozenset(m for m in ev.state.ts[0]))
    if len(ms) > 1 and not frozenset.intersection(*ms): c.bad('add-locked', 'the traces are changed with different locks', '?', repr(ms))
    # ---- operations on constant objects
    OPS = {'Trace': [('e_Trace_query', 1), ('e_Trace_getPoints2', 0), ('e_Trace_copy', 1), ('e_Trace_eq', 0), ('e_Trace_hash', 0), ('e_Trace_write', 1), ('e_Trace_save', 1), ('g_Trace_getPoints', 0), ('g_Trace_getNames', 0), ('g_Trace_getTypes', 0), ('trace_size', 0), ('get_points', 0), ('get_types', 0), ('get_names', 0), ('n_types', 0), ('n_names', 0)],
           'TraceDB': [('e_TraceDB_query', 1), ('e_TraceDB_eq', 0), ('e_TraceDB_hash', 0), ('e_TraceDB_save', 1), ('g_TraceDB_getTraces', 0), ('query_trace', 0), ('n_traces', 0), ('get_trace', 0)],
           'TracePoint': [('e_TracePoint_satisfies', 0), ('e_TracePoint_copy', 1), ('e_TracePoint_eq', 0), ('e_TracePoint_hash', 0), ('e_TracePoint_write', 1), ('e_TracePoint_save', 1)],
           'TracePointData': [('e_TracePointData_satisfies', 0), ('e_TracePointData_copy', 1), ('e_TracePointData_eq', 0), ('e_TracePointData_hash', 0), ('e_TracePointData_save', 1)],
           'TraceVarInfo': [('e_TraceVarInfo_copy', 1), ('e_TraceVarInfo_eq', 0), ('e_TraceVarInfo_hash', 0), ('e_TraceVarInfo_write', 1), ('e_TraceVarInfo_save', 1)],
           'TypeDescription': [('e_TypeDescription_copy', 1), ('e_TypeDescription_eq', 0), ('e_TypeDescription_hash', 0), ('e_TypeDescription_write', 1), ('e_TypeDescription_save', 1)],
           'Predicate': [('e_Predicate_copy', 1), ('e_Predicate_eq', 0), ('e_Predicate_hash', 0)], 'FreeVariable': [('e_FreeVariable_copy', 1), ('e_FreeVariable_eq', 0), ('e_FreeVariable_hash', 0)]}
    allruns = dict(runs)
    for cls, ops in OPS.items():
        acc = {}
        for fn, k in ops:
            if fn not in P.fn: continue
            try: r = Locks(c, P, fn.replace('e_', '', 1).replace('_', '::', 1) if fn.startswith('e_') else fn).run(fn)
            except AnalysisError as ex: c.unknown('const-operation', '%s: %s' % (fn, ex)); continue
            allruns[fn] = r
            for base, off, kind, ev in accesses(P, r, [A[k]]):
                m = member(P, cls, off)
                acc.setdefault((m['off'], m['n']) if m else ('?', off), []).append((kind, fn, base, ev))
                c.ok('const-operation')
        for (mo, mn), l in sorted(acc.items(), key=str):
            ws = [x for x in l if x[0] == 'W']
            if not ws: continue
            rel = [frozenset(split(m)[1] for m in ev.state.ts[0] if split(m)[0] is base) for kind, fn, base, ev in l]
            common = frozenset.intersection(*rel)
            if common: c.ok('const-operation', 1, '%s::%s is changed under a lock' % (cls, mn)); continue
            free = [x for x, h in zip(l, rel) if not h]
            kind, fn, base, ev = ([x for x in free if x[0] == 'W'] or free or ws)[0]
            if mo == '?': c.unknown('const-operation', '%s: %s changes something' % (cls, fn), ev.loc); continue
            c.bad('const-operation', '%s, which operations on the same constant %s change, is %s without a common lock' % (mn, cls, 'changed' if kind == 'W' else 'read'), ev.loc)
    statics(c, P, allruns)
    for fn, r in allruns.items():
        for ev in r.events:
            if ev.name.startswith('!'): continue
            if ev.name in UNSAFE: c.bad('shared-calls', '%s uses state shared by all threads' % ev.name, ev.loc)
    names = set()
    for f in P.fn.values():
        for b in f.blocks:
            for i in b:
                if i['o'] in ('call', 'invoke') and i.get('f'):
                    if i['f'] in UNSAFE: c.bad('shared-calls', '%s uses state shared by all threads' % i['f'], locstr(i))
                    else: names.add(i['f'])
    c.ok('shared-calls', len(names))
    fw = {}
    for n in names:
        sg = lib.sig(P, n)
        if sg.cls == 'boost::flyweights::flyweight' and sg.targs: fw.setdefault(lib.base_type(sg.targs[0]), set()).add(','.join(sg.targs))
    for t, a in fw.items():
        bad = [x for x in a if 'no_locking' in x]
        c.check(not bad, 'flyweight-locking', 'shared %s values are stored %s locking' % (t, 'without' if bad else 'with'), fwloc(P, t), '')
    if not fw: c.ok('flyweight-locking', 2, 'no shared values')
def fwloc(P, t):
    for f in P.fn.values():
        for b in f.blocks:
            for i in b:
                if i['o'] in ('call', 'invoke') and i.get('f') and 'flyweight' in i['f'] and t in i['f'] and not locstr(i).startswith('?'): return locstr(i)
    return '?'

def statics(c, P, allruns):
    import build
    cand = {n: g for n, g in P.globals.items() if not g.get('const') and not g.get('decl') and not g.get('tls') and g.get('file') and not g['file'].startswith('/usr') and not n.startswith('_ZGV')}
    tls = [n for n, g in P.globals.items() if g.get('tls') and not n.startswith('_ZGV')]
    c.ok('static-state', len(P.globals), '%d variables of static storage duration, %d thread local' % (len(P.globals), len(tls)))
    for n, g in cand.items():
        G = mk('glob', n); acc = []
        users = [f for f, F in P.fn.items() if any(n in str(i) for b in F.blocks for i in b)]
        for f in users:
            r = allruns.get(f)
            if r is None:
                try: r = c.run(f, model=Locks(c, P, f).model, ts0=((), ()))
                except AnalysisError as ex: c.unknown('static-state', '%s: %s' % (g['dem'][:60], ex)); continue
            acc += [(k, ev) for base, off, k, ev in accesses(P, r, [G]) if not ev.state.ts[1] and not f.startswith('_GLOBAL__') and '__cxx_global_var_init' not in f]
        ws = [ev for k, ev in acc if k == 'W' and not ev.ins.get('atomic') and not lib.sig(P, ev.name).cls.startswith('std::atomic')]
        if not ws: c.ok('static-state', 1, '%s is not changed after its initialisation' % g['dem'][:60]); continue
        common = frozenset.intersection(*[frozenset(ev.state.ts[0]) for k, ev in acc])
        nm = re.sub(r'.*::', '', g['dem'].split('(')[0] if '(' not in g['dem'] else g['dem'].split(')')[-1])[:40]
        c.check(bool(common), 'static-state', 'the variable %s shared by all threads is changed %s' % (nm, 'under a lock' if common else 'without a lock'), ws[0].loc if not ws[0].loc.startswith('?') else '%s:%s' % (g['file'].split('/repo/')[-1], g['line']))
