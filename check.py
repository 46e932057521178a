#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current tree by static analysis.
exit 0: holds on everything analysed; 1: VIOLATION line(s); 2: the analysis could not be carried out."""
import sys, os, time, json, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.setrecursionlimit(20000)
import resource; resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.viol = []; self.obl = {}; self.seen = set(); self.fns = set(); self.notes = []; self.undecided = []; self._p = {}
        self.samples = {}
    def prog(self, cfg='base'):
        import build, engine
        for k in range(5):
            if cfg in self._p: break
            try: self._p[cfg] = engine.Program(build.ir(cfg))
            except FileNotFoundError:      # removed by a run at the same time
                if k == 4: raise
        return self._p[cfg]
    def ok(self, rule, n=1, what=None):
        self.obl[rule] = self.obl.get(rule, 0) + n
        if what: self.samples.setdefault(rule, []).append(what)
    def bad(self, rule, what, loc='?', detail=''):
        """report a violating construct"""
        k = (rule, what, loc)
        self.obl[rule] = self.obl.get(rule, 0) + 1
        if k in self.seen: return
        self.seen.add(k); self.viol.append({'rule': rule, 'what': what, 'loc': loc, 'detail': detail})
    def check(self, cond, rule, what, loc='?', detail=''):
        if cond: self.ok(rule, 1, what)
        else: self.bad(rule, what, loc, detail)
        return cond
    def unknown(self, rule, what, loc='?'):
        self.undecided.append({'rule': rule, 'what': what, 'loc': loc})
    def run(self, fn, cfg='base', **kw):
        import engine
        self.fns.add(fn)
        # processor time: what a run may use, and what all of them may use together
        total, one = (480, 120) if self.tier == 'quick' else (6 * 3600, 3600)
        engine.DEADLINE[0] = min(total, time.process_time() + one)
        if time.process_time() > total: raise engine.AnalysisError('time is up')
        return engine.run(self.prog(cfg), fn, **kw)

def known():
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split('|')[0].split() if '=' in x)
                d['text'] = l.split('|', 2)
                r.append(d)
    return r

def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    c = Ctx(pid, tier)
    try:
        m = importlib.import_module('rules.' + pid.lower())
        m.check(c)
        if not c.obl and not c.viol: raise RuntimeError('no obligation was generated')
        # vacuity: every rule the property lists must have instances
        for r, least in getattr(m, 'RULES', {}).items():
            n = c.obl.get(r, 0)
            if n < least and n: c.unknown(r, 'only %d instances found where %d were expected: the code may have been reorganised' % (n, least))
            elif n < least and not any(u['rule'] == r for u in c.undecided): c.unknown(r, 'no instance was found where %d were expected: nothing is claimed about it on this tree' % least)
    except Exception as ex:
        traceback.print_exc()
        if not c.viol and not c.obl:
            print('ERROR property=%s analysis not possible: %s' % (pid, ex))
            return 2
        c.notes.append('analysis stopped early: %s' % ex)
        c.unknown('(rest)', 'the remaining obligations were not decided: %s' % ex)
    kn = [k for k in known() if k.get('property') == pid]
    real = []
    for v in c.viol:
        key = v['rule'] + '@' + v['loc'].split(':')[0]
        hit = [k for k in kn if k.get('rule') == v['rule'] and k.get('at') in v['what']]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))
        else: real.append(v)
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = None
    if real:
        rp = os.path.join(ev, 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s, violating constructs (re-run: python3 /verif/check.py %s)\n' % (pid, pid))
            for v in real: f.write('- [%s] %s\n    at %s\n    %s\n' % (v['rule'], v['what'], v['loc'], v['detail']))
    doc = sys.modules.get('rules.' + pid.lower()).__doc__ or ''
    progs = list(c._p.values())
    out = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
           'coverage': {'explanation': ' '.join(doc.split()), 'obligations_total': sum(c.obl.values()), 'obligations_discharged': sum(c.obl.values()) - len(c.viol),
                        'obligations_by_rule': c.obl, 'functions_analysed': sorted(c.fns), 'undecided': c.undecided[:50], 'notes': c.notes,
                        'samples': ['%s: %s' % (k, x) for k, v in c.samples.items() for x in v[:6]]},
           'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for v in real[:20]: print('  [%s] %s at %s' % (v['rule'], v['what'], v['loc']))
    if real:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    for u in c.undecided[:8]: print('  UNDECIDED [%s] %s' % (u['rule'], u['what'][:160]))
    print('OK property=%s obligations=%d undecided=%d' % (pid, sum(c.obl.values()), len(c.undecided)))
    return 0
sys.exit(main())
