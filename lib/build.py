"""Builds the analyser and the normalised IR of /repo's current working tree (under /verif/build, ignored by git)."""
import hashlib, os, subprocess, sys, fcntl, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
TOOL = os.path.join(V, 'tool')

class BuildError(Exception): pass

def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:16]
def rd(p): return open(p, 'rb').read()
def cmd(a, **kw):
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(a)[:300], r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')
class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def sources():
    d = os.path.join(REPO, 'cffi-interface')
    out = []
    for root, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('test', 'tests')]
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h', '.cpp', '.cc', '.hh')) : out.append(os.path.join(root, f))
    return sorted(out)
def units():
    """the library's own translation units: the .cpp files next to the headers"""
    d = os.path.join(REPO, 'cffi-interface')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp') and 'test' not in f)
def tree_hash():
    return h(*[x for p in sources() for x in (os.path.relpath(p, REPO), rd(p))])

def irtool():
    src = os.path.join(TOOL, 'irtool.cpp')
    k = h(rd(src)); exe = os.path.join(B, 'irtool-' + k)
    if not os.path.exists(exe):
        cf = cmd(['llvm-config-18', '--cxxflags']).split(); ld = cmd(['llvm-config-18', '--libdir']).strip()
        tmp = exe + '.tmp%d' % os.getpid()
        cmd(['clang++-18', '-O0'] + [x for x in cf if x not in ('-fno-exceptions', '-fno-rtti')] + ['-fexceptions', '-frtti', src, '-o', tmp, '-L' + ld, '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe

FLAGS = ['-w', '-std=c++11', '-O0', '-g', '-fstandalone-debug', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names']
SHADOWED = ('dd', 'cache')      # configurations compiled with the library models of tool/shadow
def bitcode(shadow=False):
    th = tree_hash()
    k = h(th, rd(os.path.join(TOOL, 'entries.cpp')), rd(os.path.join(TOOL, 'models.hpp')), *FLAGS)
    if shadow: k = h(k, *[rd(os.path.join(TOOL, 'shadow', f)) for f in sorted(os.listdir(os.path.join(TOOL, 'shadow')))])
    out = os.path.join(B, 'bc-' + k + '.bc')
    if os.path.exists(out): return out, k
    inc = (['-I' + os.path.join(TOOL, 'shadow')] if shadow else []) + ['-I' + os.path.join(REPO, 'cffi-interface', 'trace-db'), '-I' + os.path.join(REPO, 'cffi-interface')]
    d = os.path.join(B, 'tmp-' + k); os.makedirs(d, exist_ok=True)
    ps = []
    for u in units() + [os.path.join(TOOL, 'entries.cpp')]:
        o = os.path.join(d, os.path.basename(u) + '.bc')
        a = ['clang++-18'] + FLAGS + ['-include', os.path.join(TOOL, 'models.hpp')] + inc + ['-c', '-emit-llvm', u, '-o', o]
        ps.append((u, o, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for u, o, p in ps:
        t, _ = p.communicate()
        if p.returncode: raise BuildError('compiling %s failed:\n%s' % (u, t.decode(errors='replace')[-4000:]))
    cmd(['llvm-link-18'] + [o for _, o, _ in ps] + ['-o', out + '.tmp']); os.rename(out + '.tmp', out)
    shutil.rmtree(d)
    return out, k
def ir(cfg='base'):
    """normalised IR as JSON for a configuration: base.cfg preceded by <cfg>.cfg"""
    with Lock():
        tool = irtool(); bc, k = bitcode(cfg in SHADOWED)
        text = (rd(os.path.join(TOOL, cfg + '.cfg')) if cfg != 'base' else b'') + rd(os.path.join(TOOL, 'base.cfg'))
        out = os.path.join(B, 'ir-%s-%s.json' % (cfg, h(k, text, os.path.basename(tool))))
        if not os.path.exists(out):
            c = out + '.cfg'; open(c, 'wb').write(text)
            cmd([tool, bc, c, out + '.tmp']); os.rename(out + '.tmp', out); os.remove(c)
        prune()
        return out
def prune(keep=24):
    fs = sorted((os.path.join(B, f) for f in os.listdir(B) if f.startswith(('bc-', 'ir-')) and not f.endswith('.tmp')), key=os.path.getmtime)
    for f in fs[:-keep]:
        try: os.remove(f)
        except OSError: pass
if __name__ == '__main__':
    print(ir(sys.argv[1] if len(sys.argv) > 1 else 'base'))
