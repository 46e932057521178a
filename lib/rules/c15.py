"""The Lisp foreign declarations (defcenum, defcstruct, defcfun, defctype forms of the Lisp sources, read with a reader for the forms) are
turned into compile-time assertions about the C interface, checked by the compiler against the headers of the current tree: value of
every enumerator, offset, size and kind of every structure member and the total size (with the alignment rules of the foreign function
interface), number, kind and size of the arguments and of the result of every function, its C linkage and its definition in the
library. In addition the tables by which the Lisp client translates operators to predicate kinds, numbers to the member that carries
them, and formats to the representation it decodes are compared with the meaning of the kinds and formats, and every call of a foreign
function with its declaration."""
import os, re, subprocess
import build, lisp
from lisp import Form, Sym, Str

RULES = {'enumerator': 20, 'struct-layout': 20, 'function': 40, 'operator-table': 12, 'decode-table': 4, 'call': 15}
SZ = {'char': ('i', 1), 'unsigned-char': ('u', 1), 'uchar': ('u', 1), 'short': ('i', 2), 'unsigned-short': ('u', 2), 'ushort': ('u', 2), 'int': ('i', 4), 'unsigned-int': ('u', 4), 'uint': ('u', 4),
      'long': ('i', 8), 'unsigned-long': ('u', 8), 'ulong': ('u', 8), 'long-long': ('i', 8), 'llong': ('i', 8), 'unsigned-long-long': ('u', 8), 'ullong': ('u', 8),
      'int8': ('i', 1), 'uint8': ('u', 1), 'int16': ('i', 2), 'uint16': ('u', 2), 'int32': ('i', 4), 'uint32': ('u', 4), 'int64': ('i', 8), 'uint64': ('u', 8), 'size': ('u', 8), 'ssize': ('i', 8), 'intptr': ('i', 8), 'uintptr': ('u', 8),
      'float': ('f', 4), 'double': ('f', 8), 'pointer': ('p', 8), 'string': ('p', 8), 'void': ('v', 0), 'boolean': ('b', 4), 'bool': ('b', 1)}
def norm(s): return str(s).lstrip(':').replace('-', '_')

class T:
    """a foreign type: kind (i u f p v b e s), size, alignment, reference: name of the enum/struct, pointee"""
    def __init__(self, k, n, ref=None, to=None, al=None): self.k = k; self.n = n; self.ref = ref; self.to = to; self.al = al or max(1, n)
class Env:
    def __init__(self): self.enums = {}; self.structs = {}; self.funs = []; self.types = {}
    def type(self, x):
        if isinstance(x, Form):
            h = str(x[0])
            if h == ':pointer': return T('p', 8, to=x[1] if len(x) > 1 else None)
            if h == ':struct': return self.struct(str(x[1]))
            if h in (':string', ':boolean', ':wrapper'): return T(*SZ.get(h[1:], ('i', 4)))
            if h == ':array':
                t = self.type(x[1]); n = 1
                for d in x[2:]: n *= lisp.number(d) or 0
                return T('s', t.n * n, al=t.al)
            if h == ':union': return None
            return None
        s = str(x)
        if s.startswith(':'):
            if s[1:] in SZ: return T(*SZ[s[1:]])
            return None
        if s in self.enums: return T('e', self.enums[s][1], ref=s)
        if s in self.types: return self.type(self.types[s])
        if s in self.structs: return self.struct(s)
        return None
    def struct(self, s):
        if s not in self.structs: return None
        l = self.layout(s)
        return l and T('s', l[1], ref=s, al=l[2])
    def layout(self, s):
        """[(slot, offset, type)], size, alignment"""
        off = 0; al = 1; out = []
        for n, t, o, cnt in self.structs[s]['slots']:
            y = self.type(t)
            if y is None: return None
            if o is None: off = (off + y.al - 1) // y.al * y.al
            else: off = o
            out.append((n, off, y)); off += y.n * cnt; al = max(al, y.al)
        return out, (off + al - 1) // al * al, al

def sources():
    r = []
    for root, ds, fs in os.walk(build.REPO):
        ds[:] = [d for d in ds if not d.startswith('.') and d not in ('test', 'tests', 'build')]
        r += [os.path.join(root, f) for f in fs if f.endswith('.lisp')]
    return sorted(r)
def read():
    env = Env(); files = {}
    for p in sources():
        try: f = lisp.parse(open(p, encoding='utf-8', errors='replace').read())
        except Exception: continue
        rel = os.path.relpath(p, build.REPO)
        files[rel] = f
        for x in lisp.walk(f):
            if not x or not isinstance(x[0], Sym): continue
            h = x[0].split(':')[-1]
            at = '%s:%d' % (rel, x.line)
            if h == 'defctype' and len(x) >= 3: env.types[str(x[1])] = x[2]
            elif h == 'defcenum' and len(x) >= 3:
                name = x[1]; size = 4
                if isinstance(name, Form):
                    if len(name) > 1 and isinstance(name[1], Sym) and name[1][1:] in SZ: size = SZ[name[1][1:]][1]
                    name = name[0]
                vals = []; nxt = 0
                for y in x[2:]:
                    if isinstance(y, Str): continue
                    if isinstance(y, Form):
                        v = lisp.number(y[1]) if len(y) > 1 else nxt
                        if v is not None: nxt = v
                        y = y[0]
                    vals.append((str(y), nxt)); nxt += 1
                env.enums[str(name)] = (vals, size, at)
            elif h == 'defcstruct' and len(x) >= 3:
                name = x[1]; cls = None; total = None
                if isinstance(name, Form):
                    o = name[1:]
                    for a, b in zip(o[::2], o[1::2]):
                        if a == ':class': cls = str(b)
                        if a == ':size': total = lisp.number(b)
                    name = name[0]
                slots = []
                for y in x[2:]:
                    if isinstance(y, Str) or not isinstance(y, Form) or len(y) < 2: continue
                    o = dict(zip(map(str, y[2::2]), y[3::2]))
                    slots.append((str(y[0]), y[1], lisp.number(o[':offset']) if ':offset' in o else None, (lisp.number(o[':count']) or 1) if ':count' in o else 1))
                env.structs[str(name)] = {'slots': slots, 'class': cls, 'at': at, 'size': total}
            elif h == 'defcfun' and len(x) >= 3:
                name = x[1]; ln = None; cn = None
                if isinstance(name, Form):
                    for y in name:
                        if isinstance(y, Str): cn = str(y)
                        elif isinstance(y, Sym) and not y.startswith(':') and ln is None: ln = str(y)
                elif isinstance(name, Str): cn = str(name)
                else: ln = str(name)
                if cn is None: cn = norm(ln)
                if ln is None: ln = cn.replace('_', '-')
                env.funs.append((cn, ln, x[2], [(str(y[0]), y[1]) for y in x[3:] if isinstance(y, Form) and len(y) >= 2], at))
    return env, files

PRE = '''#include "TraceDB.hpp"
#include "trace.h"
#include "trace-db.h"
#include <cstddef>
#include <type_traits>
template<class X> struct K { typedef typename std::remove_cv<X>::type Y;
  static const char k = std::is_void<Y>::value ? 'v' : std::is_pointer<Y>::value || std::is_reference<Y>::value ? 'p' : std::is_enum<Y>::value ? 'e' : std::is_same<Y, bool>::value ? 'b' : std::is_floating_point<Y>::value ? 'f'
    : std::is_integral<Y>::value ? (std::is_signed<Y>::value ? 'i' : 'u') : 's'; };
template<class X> struct N { static const unsigned n = sizeof(X); };
template<class X> struct N<X&> { static const unsigned n = 8; };
template<> struct N<void> { static const unsigned n = 0; };
template<class X> struct To { typedef typename std::remove_cv<typename std::remove_pointer<typename std::remove_cv<X>::type>::type>::type T; };
template<class F> struct Fn;
template<class R, class... A> struct Fn<R(*)(A...)> { typedef R Ret; static const unsigned n = sizeof...(A); template<unsigned i, class... B> struct Nth;
  template<unsigned i, class H, class... B> struct Nth<i, H, B...> { typedef typename Nth<i - 1, B...>::T T; }; template<class H, class... B> struct Nth<0, H, B...> { typedef H T; };
  template<unsigned i> struct Arg { typedef typename Nth<i, A...>::T T; }; };
template<class X> struct IsChar { static const bool v = std::is_same<X, char>::value || std::is_same<X, signed char>::value || std::is_same<X, unsigned char>::value || std::is_void<X>::value; };
'''
class Unit:
    def __init__(self): self.lines = []; self.what = []
    def need(self, cond, rule, what, at): self.lines.append('static_assert(%s, "x");' % cond); self.what.append((rule, what, at))
    def run(self):
        """-> for every assertion 'ok', 'bad' or an error text"""
        src = os.path.join(build.B, 'c15-%d.cpp' % os.getpid()); os.makedirs(build.B, exist_ok=True)
        base = PRE.count('\n') + 1
        open(src, 'w').write(PRE + '\n'.join(self.lines) + '\n')
        inc = ['-I' + os.path.join(build.REPO, 'cffi-interface', 'trace-db'), '-I' + os.path.join(build.REPO, 'cffi-interface')]
        r = subprocess.run(['clang++-18', '-w', '-std=c++11', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics'] + inc + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.remove(src)
        res = ['ok'] * len(self.lines); out = r.stdout.decode(errors='replace'); other = []
        for l in out.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
            if not m: continue
            if m.group(1) == src and int(m.group(2)) >= base:
                k = int(m.group(2)) - base
                v = 'bad' if 'static assertion failed' in m.group(3) else m.group(3)
                if res[k] in ('ok', 'bad'): res[k] = v
            else: other.append(l)
        return res, other

def same(env, t, cx, structs):
    """C++ conditions under which the C type cx is represented as the Lisp type t"""
    k = {'i': "'i'", 'u': "'u'", 'f': "'f'", 'p': "'p'", 'v': "'v'"}
    if t.k == 'p':
        c = ["K<%s>::k == 'p'" % cx]
        x = t.to
        if x is not None and isinstance(x, Form) and str(x[0]) == ':struct' and str(x[1]) in structs:
            c.append('std::is_same<To<%s>::T, %s>::value || std::is_void<To<%s>::T>::value' % (cx, structs[str(x[1])], cx))
        elif x is not None:
            y = env.type(x)
            if y is not None and y.k in 'iuf': c.append('std::is_void<To<%s>::T>::value || (K<To<%s>::T>::k == \'%s\' && N<To<%s>::T>::n == %d)' % (cx, cx, y.k, cx, y.n))
            elif y is not None and y.k == 'p': c.append('std::is_void<To<%s>::T>::value || K<To<%s>::T>::k == \'p\'' % (cx, cx))
        return c
    if t.k == 'e': return ["K<%s>::k == 'e' || K<%s>::k == 'i' || K<%s>::k == 'u'" % (cx, cx, cx), 'N<%s>::n == %d' % (cx, t.n)]
    if t.k == 's': return ['N<%s>::n == %d' % (cx, t.n)]
    if t.k == 'b': return ["K<%s>::k == 'b' || K<%s>::k == 'u' || K<%s>::k == 'i'" % (cx, cx, cx), 'N<%s>::n == %d' % (cx, t.n)]
    c = ["K<%s>::k == '%s'%s" % (cx, t.k, " || K<%s>::k == 'e' || K<%s>::k == 'b'" % (cx, cx) if t.k in 'iu' else ''), 'N<%s>::n == %d' % (cx, t.n)]
    return c

def check(c):
    env, files = read()
    U = Unit()
    # enumerations
    for e, (vals, size, at) in env.enums.items():
        U.need('sizeof(enum %s) == %d' % (norm(e), size), 'enumerator', 'enum %s has %d bytes' % (norm(e), size), at)
        for n, v in vals: U.need('(long) %s::%s == %dL' % (norm(e), norm(n).upper(), v), 'enumerator', '%s is %d in the Lisp declaration of %s and in C' % (norm(n).upper(), v, e), at)
    # structures
    cname = {s: norm(d['class'] or s) for s, d in env.structs.items()}
    for s, d in env.structs.items():
        l = env.layout(s)
        if l is None: c.unknown('struct-layout', 'layout of %s' % s, d['at']); continue
        cn = cname[s]
        U.need('sizeof(%s) == %d' % (cn, d['size'] or l[1]), 'struct-layout', '%s has %d bytes in Lisp and in C' % (cn, d['size'] or l[1]), d['at'])
        for n, off, t in l[0]:
            U.need('offsetof(%s, %s) == %d' % (cn, norm(n), off), 'struct-layout', '%s of %s lies at byte %d in Lisp and in C' % (norm(n), cn, off), d['at'])
            cx = 'decltype(%s::%s)' % (cn, norm(n))
            if t.k in 'iu':   # a member that is a union in C is declared as an integer of the same size
                U.need("K<%s>::k == '%s' || K<%s>::k == 's' || K<%s>::k == 'e' || K<%s>::k == 'b'" % (cx, t.k, cx, cx, cx), 'struct-layout', '%s of %s has the same kind in Lisp and in C' % (norm(n), cn), d['at'])
                U.need('N<%s>::n == %d' % (cx, t.n), 'struct-layout', '%s of %s has %d bytes in Lisp and in C' % (norm(n), cn, t.n), d['at'])
            else:
                for x in same(env, t, cx, cname): U.need(x, 'struct-layout', '%s of %s has the same representation in Lisp and in C' % (norm(n), cn), d['at'])
            if t.k == 'e': U.need('std::is_same<%s, enum %s>::value || std::is_integral<%s>::value' % (cx, norm(t.ref), cx), 'struct-layout', '%s of %s is a %s' % (norm(n), cn, t.ref), d['at'])
    # functions
    defined = exported(c)
    for cn, ln, ret, args, at in env.funs:
        f = 'Fn<decltype(&%s)>' % cn
        U.need('%s::n == %d' % (f, len(args)), 'function', '%s takes %d arguments in Lisp and in C' % (cn, len(args)), at)
        t = env.type(ret)
        if t is None: c.unknown('function', 'result of %s' % cn, at)
        else:
            for x in same(env, t, f + '::Ret', cname): U.need(x, 'function', '%s returns the same representation in Lisp and in C' % cn, at)
        for i, (an, ty) in enumerate(args):
            t = env.type(ty)
            if t is None: c.unknown('function', 'argument %s of %s' % (an, cn), at); continue
            cx = '%s::Arg<%d>::T' % (f, i)
            for x in same(env, t, cx, cname): U.need(x, 'function', 'argument %d of %s (%s) has the same representation in Lisp and in C' % (i + 1, cn, an), at)
            if str(ty) == ':string': U.need('IsChar<To<%s>::T>::v' % cx, 'function', 'argument %d of %s (%s) is a string' % (i + 1, cn, an), at)
        if defined is not None: c.check(cn in defined, 'function', '%s is defined in the library with C linkage' % cn, at)
    res, other = U.run()
    if other: raise build.BuildError('the headers do not compile: ' + other[0])
    gone = set()
    for (rule, what, at), v in zip(U.what, res):
        if v == 'ok': c.ok(rule, 1, what)
        elif v == 'bad': c.bad(rule, what + ': it is not so', at)
        else:
            m = re.match(r"use of undeclared identifier '(\w+)'", v)
            if rule == 'function' and m: c.unknown(rule, 'the Lisp client calls %s, which the headers do not declare' % m.group(1), at)
            elif rule == 'enumerator' and re.match(r"no member named '(\w+)'", v): missing(c, what, v, at)
            elif rule == 'struct-layout' and 'no member named' in v: renamed(c, what, v, at)
            else: c.unknown(rule, '%s: %s' % (what, v), at)
    tables(c, env, files)
def missing(c, what, v, at): c.unknown('enumerator', '%s: %s' % (what, v), at)
def renamed(c, what, v, at): c.unknown('struct-layout', '%s: %s' % (what, v), at)
def exported(c):
    try:
        bc, k = build.bitcode()
        out = build.cmd(['llvm-nm-18', '--defined-only', bc])
        return {l.split()[-1] for l in out.splitlines() if l.split() and len(l.split()) >= 2 and l.split()[-2] in ('T', 'W')}
    except build.BuildError as ex: c.unknown('function', 'linkage: %s' % str(ex)[:100]); return None

OPS = {'distinct-vars': 'distinct-vars', 'and': 'and', 'or': 'or', 'not': 'not', 'v/size': 'var-size', 'v/value': 'var-value', '>': 'greater-than', '>=': 'greater-than-or-equal', '<': 'less-than', '<=': 'less-than-or-equal',
       'equal': 'equal', '=': 'equal', '+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide'}
DEC = {'unsigned': [('u', 8)], 'signed': [('i', 8)], 'float': [('f', 8)], 'pointer': [('u', 8), ('p', 8)], 'blob': [('p', 8)]}
def tables(c, env, files):
    kinds = {n.lstrip(':') for e in ('predicate-kind',) if e in env.enums for n, v in env.enums[e][0]}
    fmts = {n.lstrip(':') for e in ('type-format',) if e in env.enums for n, v in env.enums[e][0]}
    lfun = {ln: (cn, len(a)) for cn, ln, r, a, at in env.funs}
    for rel, top in files.items():
        if not any(isinstance(x, Form) and x and isinstance(x[0], Sym) and x[0].split(':')[-1] == 'defcfun' for x in lisp.walk(top)): continue
        for f in lisp.walk(top):
            if not f: continue
            at = '%s:%d' % (rel, f.line)
            h = f[0] if isinstance(f[0], Sym) else None
            if h in ('case', 'ecase', 'ccase', 'eswitch', 'switch', 'match', 'ematch') and len(f) > 2:
                cl = [x for x in f[2:] if isinstance(x, Form) and len(x) >= 2]
                keyed = [(k, x) for x in cl for k in (x[0] if isinstance(x[0], Form) else [x[0]]) if isinstance(k, Sym)]
                opk = [(k, x) for k, x in keyed if str(k).lstrip(':') in OPS and isinstance(x[-1], Sym) and str(x[-1]).startswith(':') and str(x[-1])[1:] in kinds]
                if len(opk) >= 6:
                    for k, x in opk:
                        o = str(k).lstrip(':'); v = str(x[-1])[1:]
                        c.check(v == OPS[o], 'operator-table', 'the operator %s is sent as %s%s' % (o, v, '' if v == OPS[o] else ', not %s' % OPS[o]), '%s:%d' % (rel, x.line))
                if fmts and sum(1 for k, x in keyed if str(k).lstrip(':') in fmts) >= 4:
                    for k, x in keyed:
                        n = str(k).lstrip(':')
                        if n not in DEC: continue
                        v = x[-1]
                        if isinstance(v, Sym):
                            t = env.type(v)
                            if t is None: c.unknown('decode-table', 'format %s decoded as %s' % (n, v), '%s:%d' % (rel, x.line)); continue
                            if n == 'float': c.bad('decode-table', 'variables of format float are decoded as %s whatever their size' % v, '%s:%d' % (rel, x.line)); continue
                            c.check((t.k, t.n) in DEC[n], 'decode-table', 'format %s is decoded as %s' % (n, v), '%s:%d' % (rel, x.line))
                        elif n == 'float' and isinstance(v, Form) and len(v) == 4 and v[0] == 'if' and isinstance(v[1], Form) and len(v[1]) == 3 and str(v[1][0]) in ('=', 'eql', 'equal', '/='):
                            nums = [lisp.number(y) for y in v[1][1:] if isinstance(y, Sym) and lisp.number(y) is not None]
                            br = [env.type(v[2]), env.type(v[3])]
                            if len(nums) != 1 or None in br: c.unknown('decode-table', 'decoding of format float', '%s:%d' % (rel, v.line)); continue
                            if v[1][0] == '/=': br.reverse()
                            c.check((br[0].k, br[0].n, br[1].k, br[1].n) == ('f', nums[0], 'f', 12 - nums[0]), 'decode-table', 'a float of 4 bytes is decoded as float, one of 8 as double', '%s:%d' % (rel, v.line))
                        else: c.unknown('decode-table', 'decoding of format %s' % n, '%s:%d' % (rel, x.line))
            if h in ('list', 'list*') or f.q.startswith('`') or h in SLOTHEAD:
                plist(c, env, f, at)
            if h is not None and str(h) in lfun and f.q in ('', ','):
                cn, n = lfun[str(h)]
                c.check(len(f) - 1 == n, 'call', 'the call of %s passes %d arguments' % (cn, n), at)
SLOTHEAD = {'kind', 'value', 'statement', 'n-allowed-types'}
def plist(c, env, f, at):
    """property lists from which foreign structures are built: the members named exist, each once, and the member that carries a number
    is the one its kind says"""
    l = f[1:] if isinstance(f[0], Sym) and f[0] in ('list', 'list*') else list(f)
    keys = [str(x) for x in l[::2] if isinstance(x, Sym)]
    for s, d in env.structs.items():
        names = [x[0] for x in d['slots']]
        if len(l) % 2 or len(keys) * 2 != len(l) or sum(k in names for k in keys) < max(2, len(names) - 1): continue
        c.check(sorted(keys) == sorted(names), 'call', 'the list built for %s names each of its members once' % s, at)
        for k, v in zip(l[::2], l[1::2]):
            if str(k).endswith('-value') and isinstance(v, Form) and len(v) == 4 and v[0] == 'if' and isinstance(v[1], Form) and len(v[1]) == 3 and v[1][0] in ('eq', 'eql', 'equal'):
                kk = [str(y)[1:] for y in v[1][1:] if isinstance(y, Sym) and str(y).startswith(':')]
                if len(kk) == 1 and lisp.number(v[3]) == 0 or len(kk) == 1 and str(v[3]).startswith('0'): c.check(kk[0] == str(k), 'operator-table', 'the member %s carries numbers of kind %s' % (k, kk[0]), '%s:%d' % (at.split(':')[0], v.line))
