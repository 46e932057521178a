"""Declarations of the repository's classes from the compiler's syntax tree (clang -ast-dump=json)."""
import json, os, subprocess
import build

FILTERS = ('Trace', 'TypeDescription', 'Predicate', 'FreeVariable')
def _dump(names=FILTERS):
    k = build.h(build.tree_hash(), *names)
    src = os.path.join(build.B, 'hdr-%s.cpp' % k)
    os.makedirs(build.B, exist_ok=True)
    open(src, 'w').write('#include "TraceDB.hpp"\n')
    inc = ['-I' + os.path.join(build.REPO, 'cffi-interface', 'trace-db'), '-I' + os.path.join(build.REPO, 'cffi-interface')]
    ps = [subprocess.Popen(['clang++-18', '-w', '-std=c++11', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + n] + inc + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE) for n in names]
    outs = []
    for p in ps:
        o, e = p.communicate()
        if p.returncode: raise build.BuildError(e.decode(errors='replace')[-3000:])
        outs.append(o.decode(errors='replace'))
    os.remove(src)
    return outs
def nodes(names=FILTERS):
    dec = json.JSONDecoder()
    for t in _dump(names):
        i = 0
        while True:
            while i < len(t) and t[i].isspace(): i += 1
            if i >= len(t): break
            if t[i] != '{':
                j = t.find('\n', i); i = len(t) if j < 0 else j; continue
            o, i = dec.raw_decode(t, i)
            yield o
def walk(n):
    yield n
    for x in n.get('inner', ()): yield from walk(x)
def fill(n, cur=None):
    """source lines are given only when they change: fill them in (document order)"""
    n['inner'] = [x for x in n.get('inner', ()) if x.get('kind')]
    cur = cur or {'file': None, 'line': None}
    for key in ('loc',):
        l = n.get(key) or {}
        l = l.get('expansionLoc', l)
        if 'file' in l: cur['file'] = l['file']
        if 'line' in l: cur['line'] = l['line']
    n['_file'], n['_line'] = cur['file'], cur['line']
    r = (n.get('range') or {}).get('begin') or {}
    r = r.get('expansionLoc', r)
    if 'file' in r: cur['file'] = r['file']
    if 'line' in r: cur['line'] = r['line']
    for x in n.get('inner', ()): fill(x, cur)
def classes():
    """{name: definition node} of the repository's classes"""
    out = {}
    for n in nodes():
        if n.get('kind') == 'CXXRecordDecl' and n.get('completeDefinition') and n.get('name'):
            fill(n)
            out.setdefault(n['name'], n)
    return out
def members(n):
    """(access, node) of the direct members"""
    acc = 'private' if n.get('tagUsed') == 'class' else 'public'
    for x in n.get('inner', ()):
        if x['kind'] == 'AccessSpecDecl': acc = x['access']; continue
        yield acc, x
