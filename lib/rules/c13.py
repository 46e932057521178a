"""Interface and effect analysis. From the type-checked program: no class of the library can be assigned, has public data, or has a public
operation that is not constant and changes or hands out its parts (other than deserialization and adding a trace), and no operation
returns a modifiable reference or pointer to a part. From the intermediate representation: operations on constant objects change no part
that an accessor, comparison, hash or writer can observe; adding a trace leaves the other traces as they were and appends exactly one."""
from rules.common import *
import cxxast, build
from rules.c12 import accesses, member

RULES = {'no-assignment': 9, 'public-interface': 60, 'no-modifiable-part': 40, 'const-effect': 8, 'append-only': 3}
CLS = ['TypeDescription', 'TraceBufferSize', 'TraceVarInfo', 'TracePointData', 'TracePoint', 'Trace', 'TraceDB', 'Predicate', 'FreeVariable']

def loc(n):
    f = n.get('_file') or '?'
    return '%s:%s' % (f.split(build.REPO.rstrip('/') + '/')[-1], n.get('_line'))
def const_type(q):
    q = q.strip()
    return q.startswith('const ') or ' const' in q.rstrip('& *')[-6:] or q.rstrip('&* ').endswith('const')
def split_fn(q):
    """return type, is const method"""
    d = 0
    for i, ch in enumerate(q):
        if ch in '<': d += 1
        elif ch in '>': d -= 1
        elif ch == '(' and d == 0: break
    ret = q[:i].strip(); tail = q[q.rindex(')') + 1:]
    return ret, 'const' in tail
def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

def uses(body, isbase):
    """places where a part of the object is changed or handed out: parts that are not just read"""
    out = []
    def go(n, parents):
        if n['kind'] in ('MemberExpr', 'CXXDependentScopeMemberExpr') and n.get('inner') and isbase(strip(n['inner'][0])) and 'bound member function' not in qt(n):
            k = usage(n, parents)
            if k: out.append((n, k))
        for x in n.get('inner', ()): go(x, parents + [n])
    def usage(n, parents):
        child = n; viewed = False
        for p in reversed(parents):
            k = p['kind']
            if k == 'ParenExpr': child = p; continue
            if k == 'MemberExpr':
                if 'bound member function' in qt(p):
                    if p.get('name') not in VIEWS: return 'a modifying operation is called on it'
                    if p.get('name') in ITERS: viewed = True
                child = p; continue
            if viewed and k in ('ImplicitCastExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and const_it(qt(p)): return None
            if k == 'CXXMemberCallExpr' and p['inner'][0] is child or k == 'CXXOperatorCallExpr' and len(p['inner']) > 1 and p['inner'][1] is child and opname(p) in ('operator[]', 'operator*', 'operator->', 'operator+', 'operator-'):
                child = p; continue
            if k == 'ImplicitCastExpr' and p.get('castKind') == 'LValueToRValue': return None
            if k == 'ImplicitCastExpr' and p.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
                if const_type(qt(p)): return None
                child = p; continue
            if k == 'ArraySubscriptExpr': child = p; continue
            if k == 'VarDecl' and p.get('name', '').startswith('__range'): return None
            if k == 'DeclStmt' or k == 'VarDecl': return 'it is bound to a modifiable reference' if qt(p).rstrip().endswith('&') and not const_type(qt(p)) else None
            if k == 'ReturnStmt': return 'it is handed out'
            if k in ('CompoundAssignOperator',) or k == 'UnaryOperator' and p.get('opcode') in ('++', '--'): return 'it is changed'
            if k == 'UnaryOperator' and p.get('opcode') == '&': return 'its address is handed out'
            if k == 'BinaryOperator': return 'it is changed' if p.get('opcode') == '=' and p['inner'][0] is child else None
            if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXMemberCallExpr'): return 'it is passed on as modifiable'
            return None if k in ('CompoundStmt', 'IfStmt', 'UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr') else 'it may be changed'
        return None
    go(body, [])
    return out
VIEWS = {'at', 'front', 'back', 'data', 'begin', 'end', 'rbegin', 'rend', 'find'}
ITERS = VIEWS - {'at', 'front', 'back', 'data'}
def const_it(q): return 'const_iterator' in q or re.search(r'__normal_iterator<const ', q) is not None
def opname(p):
    for x in cxxast.walk(p['inner'][0]):
        if x['kind'] == 'DeclRefExpr': return (x.get('referencedDecl') or {}).get('name')
def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'UnaryOperator') and n.get('inner') and (n['kind'] != 'UnaryOperator' or n.get('opcode') == '*'): n = n['inner'][0]
    return n
def body(n):
    for x in n.get('inner', ()):
        if x['kind'] in ('CompoundStmt', 'CXXTryStmt'): return x
    return None
MEMBER_OK = {'load', 'serialize', 'save'}

def check(c):
    P = c.prog()
    for t in CLS:
        v = c.run('k_%s_assignable' % t).returns()[0].value
        c.check(isc(v) and cv(v) == 0, 'no-assignment', '%s %s be assigned' % (t, 'cannot' if isc(v) and cv(v) == 0 else 'can'), recloc(P, t))
    C_ = cxxast.classes()
    for t in CLS:
        if t not in C_: c.unknown('public-interface', 'the declaration of %s was not found' % t); continue
        defs = {x.get('id'): x for x in cxxast.walk(C_[t])}
        for acc, m in cxxast.members(C_[t]):
            interface(c, t, acc, m)
    effects(c, P)
    append(c, P)
def recloc(P, t):
    r = P.records.get(t)
    return '%s:%s' % (re.sub(r'.*cffi-interface', 'cffi-interface', r['file']), r['line']) if r else '?'

def interface(c, t, acc, m):
    k = m['kind']
    if m.get('isImplicit'): return
    if k == 'FieldDecl':
        c.check(acc != 'public' or const_type(qt(m)), 'public-interface', '%s::%s %s' % (t, m.get('name'), 'is not public data' if acc != 'public' else 'can be changed by anyone'), loc(m)); return
    if k == 'FriendDecl':
        for f in m.get('inner', ()):
            if f['kind'] == 'FunctionDecl': params(c, t, f, 'friend ' + f.get('name', ''))
        return
    if acc != 'public': return
    if k == 'FunctionTemplateDecl':
        if m.get('name') in MEMBER_OK: return
        inst = [x for x in m.get('inner', ()) if x['kind'] in ('CXXMethodDecl',)]
        for x in inst[:1]: method(c, t, x)
        return
    if k == 'CXXMethodDecl': method(c, t, m)
def method(c, t, m):
    name = m.get('name'); q = (m.get('type') or {}).get('qualType', '')
    if m.get('explicitlyDeleted') or m.get('inner') is None and not q: return
    ret, const = split_fn(q)
    what = '%s::%s' % (t, name)
    if m.get('storageClass') == 'static': params(c, t, m, what); return
    if name in MEMBER_OK: return
    # what is returned
    rt = ret
    if rt.endswith(('&', '*')) and not const_type(rt.rstrip('&* ') if not rt.endswith('*') else rt[:-1]) and not const_type(rt):
        stream = 'stream' in rt
        b = body(m)
        parts = []
        if b is not None and not stream:
            for x in cxxast.walk(b):
                if x['kind'] == 'ReturnStmt' and any(strip(y)['kind'] in ('MemberExpr', 'CXXThisExpr') or any(z['kind'] == 'CXXThisExpr' for z in cxxast.walk(y)) for y in x.get('inner', ())): parts.append(x)
        c.check(stream or not parts, 'no-modifiable-part', '%s %s' % (what, 'hands out no modifiable part' if stream or not parts else 'returns a modifiable part of the object (%s)' % ret), loc(m))
    else: c.ok('no-modifiable-part', 1, what)
    if const: c.ok('public-interface', 1, what + ' is constant'); return
    if t == 'TraceDB' and name == 'addTrace': c.ok('public-interface', 1, 'adding a trace'); return
    b = body(m)
    if b is None:
        if name.startswith('operator=') : return
        c.unknown('public-interface', what + ': no body', loc(m)); return
    us = uses(b, lambda n: n['kind'] == 'CXXThisExpr')
    # non-constant methods of the object that are called on it
    calls = [x for x in cxxast.walk(b) if x['kind'] == 'MemberExpr' and 'bound member function' in qt(x) and x.get('inner') and strip(x['inner'][0])['kind'] == 'CXXThisExpr' and not const_type(qt(x['inner'][0]).rstrip('* '))]
    if us: c.bad('public-interface', '%s is public, is not constant and %s of it is not just read: %s' % (what, us[0][0].get('name', '?'), us[0][1]), loc(us[0][0]) if us[0][0].get('_line') else loc(m))
    elif calls: c.bad('public-interface', '%s is public, is not constant and calls %s, which is not constant either' % (what, calls[0].get('name')), loc(m))
    else: c.ok('public-interface', 1, what + ' only reads')
def params(c, t, f, what):
    """functions that get a modifiable object of the class"""
    ps = [x for x in f.get('inner', ()) if x['kind'] == 'ParmVarDecl']
    b = body(f)
    for p in ps:
        q = qt(p)
        if re.match(r'^(class )?%s [&*]$' % t, q.strip()):
            if b is None: c.unknown('public-interface', what + ' takes a modifiable %s' % t, loc(f)); continue
            us = uses(b, lambda n: n['kind'] == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('id') == p.get('id'))
            if us: c.bad('public-interface', '%s changes a %s: %s' % (what, t, us[0][1]), loc(f)); return
    c.ok('public-interface', 1, what)

OPS = {'Trace': [('e_Trace_query', 1), ('e_Trace_getPoints2', 0), ('e_Trace_copy', 1), ('e_Trace_eq', 0), ('e_Trace_eq', 1), ('e_Trace_hash', 0), ('e_Trace_write', 1), ('e_Trace_save', 1), ('get_points', 0), ('get_types', 0), ('get_names', 0), ('trace_size', 0)],
       'TraceDB': [('e_TraceDB_query', 1), ('e_TraceDB_copy', 1), ('e_TraceDB_eq', 0), ('e_TraceDB_eq', 1), ('e_TraceDB_hash', 0), ('e_TraceDB_save', 1), ('query_trace', 0), ('n_traces', 0), ('get_trace', 0)],
       'TracePoint': [('e_TracePoint_satisfies', 0), ('e_TracePoint_copy', 1), ('e_TracePoint_eq', 0), ('e_TracePoint_eq', 1), ('e_TracePoint_hash', 0), ('e_TracePoint_write', 1), ('e_TracePoint_save', 1)],
       'TracePointData': [('e_TracePointData_satisfies', 0), ('e_TracePointData_copy', 1), ('e_TracePointData_eq', 0), ('e_TracePointData_eq', 1), ('e_TracePointData_hash', 0), ('e_TracePointData_save', 1)]}
for _t in ('TraceVarInfo', 'TypeDescription', 'TraceBufferSize'): OPS[_t] = [('e_%s_%s' % (_t, x), k) for x, k in (('copy', 1), ('eq', 0), ('eq', 1), ('hash', 0), ('write', 1), ('save', 1))]
for _t in ('Predicate', 'FreeVariable'): OPS[_t] = [('e_%s_%s' % (_t, x), k) for x, k in (('copy', 1), ('eq', 0), ('eq', 1), ('hash', 0))]
OPS['Predicate'].append(('e_Trace_query', 3)); OPS['FreeVariable'].append(('e_Trace_query', 2))
def effects(c, P):
    runs = {}
    for t, ops in OPS.items():
        obs = {f.off: f.name for f in fields(P, t)}
        nfun = 0; bad = False
        for fn, k in ops:
            if fn not in P.fn: continue
            if fn not in runs:
                try: runs[fn] = c.run(fn, ts0=((), ()))
                except AnalysisError as ex: c.unknown('const-effect', '%s: %s' % (fn, ex)); continue
            r = runs[fn]; nfun += 1
            for base, off, kind, ev in accesses(P, r, [A[k]]):
                if kind != 'W': continue
                m = member(P, t, off)
                if m is None: continue
                hit = [n for o, n in obs.items() if m['off'] <= o < m['off'] + max(1, m['s'])]
                if t == 'TraceDB' and hit and deep_cache(P, ev): continue
                if hit and same_object(r, fn, k): continue
                if hit: bad = True; c.bad('const-effect', '%s changes %s of a constant %s' % (fn.replace('e_', '', 1), hit[0], t), ev.loc)
        if not bad: c.ok('const-effect', nfun, '%d operations on a constant %s change nothing observable' % (nfun, t))
def same_object(r, fn, k): return False
def deep_cache(P, ev):
    """a trace inside the database: its own cache"""
    obs = {f.off for f in fields(P, 'Trace')}
    for a in ev.args:
        if not isinstance(a, Term): continue
        b, o = split(a)
        if b.op == 'idx' and root(b).op == 'vbeg':
            m = member(P, 'Trace', o)
            if m and not any(m['off'] <= x < m['off'] + max(1, m['s']) for x in obs): return True
        if root(a).op == 'mapel': return True
    return False

def append(c, P):
    tf = field(P, 'TraceDB', 'getTraces')
    for fn in ('e_TraceDB_addTrace', 'add_trace', 'add_trace_points'):
        cfg = 'capi' if fn == 'add_trace' else 'base'
        r = c.run(fn, cfg=cfg)
        old = mk('cont0', ptr(A[0], tf.off), 0)
        for x in r.exits:
            v = tf.at(r.e, x.state, A[0])
            what = '%s%s' % (fn.replace('e_TraceDB_', 'TraceDB::'), '' if x.kind == 'ret' else ' (exception)')
            vs = sources(r.e, v) if v.op == 'phi' else {v}
            for y in vs:
                if y is old: c.ok('append-only', 1, what + ' leaves the traces as they were')
                elif y.op == 'vpush' and y.a[0] is old: c.ok('append-only', 1, what + ' appends one trace')
                elif y.op in ('vempty', 'vpre', 'vresize', 'moved') or y.op == 'vpush' and y.a[0].op in ('vpush', 'vempty', 'vpre') : c.bad('append-only', what + ' does not append exactly one trace', addloc(r, x), repr(y))
                elif y.op in ('evv',) and changed(P, r, tf): c.bad('append-only', what + ' changes the traces other than by appending one (%s)' % changed(P, r, tf)[0], changed(P, r, tf)[1])
                else: c.unknown('append-only', what + ': %r' % (y,), addloc(r, x))
        if fn == 'e_TraceDB_addTrace':
            for x in r.returns():
                v = tf.at(r.e, x.state, A[0])
                if old in sources(r.e, v): c.bad('append-only', 'the trace is not added', addloc(r, x))
                elif v.op == 'vpush' and v.a[0] is old:
                    e = v.a[1]; pf = field(P, 'Trace', 'getPoints')
                    o = lib.value(r.e, x.state, A[1], 'Trace')
                    for f in fields(P, 'Trace'):
                        g = lib.part(P, e, f.off)
                        if g is None: c.unknown('append-only', 'the trace added: %r' % (e,), addloc(r, x)); continue
                        judge(c, r.e, g, mk('cont0', ptr(A[1], f.off), 0), 'append-only', 'the trace added has the %s of the one given' % f.name, addloc(r, x))
def addloc(r, x):
    for ev in r.events:
        if 'push_back' in ev.qual or 'emplace' in ev.qual: return ev.loc
    return x.loc
def changed(P, r, tf):
    for ev in r.events:
        sg = lib.sig(P, ev.name)
        if sg.cls == 'std::vector' and ev.args and ev.args[0] is ptr(A[0], tf.off) and not sg.const and sg.name in ('erase', 'pop_back', 'insert', 'emplace', 'resize', 'assign', 'clear'): return sg.name, ev.loc
    return None
