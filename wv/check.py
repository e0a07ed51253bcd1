"""Common frame of every check: build, report, evidence."""
import os, sys, json, time, traceback, random, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build as B, tlc as T

def plain(x):
    if isinstance(x, dict): return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x if x is None or isinstance(x, (str, int, float, bool)) else repr(x)
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid; self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%s' % (pid, self.seed))
        self.t0 = time.time()
        self.violations = []; self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []; self.extra = {}; self.assumptions = []
        self.parts = {}
        self.findings = load_findings(pid)
    @property
    def thorough(self): return self.tier == 'thorough'
    def n(self, quick, thorough): return thorough if self.thorough else quick
    def tool(self): 
        if not hasattr(self, '_tool'): self._tool = B.build()
        return self._tool
    def tlc(self, *a, **k):
        r = T.run(*a, **k)
        self.states += r.distinct; self.transitions += r.generated
        return r
    def part(self, name, **kv):
        self.parts.setdefault(name, {}).update(kv)
        if os.environ.get('WV_VERBOSE'): print('[%6.1fs] %s %s' % (time.time() - self.t0, name, kv), file=sys.stderr)
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)
    def violation(self, key, what, detail):
        """key identifies the failing input; a listed known finding is reported as such."""
        for f in self.findings:
            if f['key'] == key:
                if key not in [k['key'] for k in self.known]: self.known.append(dict(key=key, what=f['what']))
                return
        self.violations.append(dict(key=key, what=what, detail=detail))
    def finish(self):
        ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
        rd = os.path.join(ev, 'replay'); os.makedirs(rd, exist_ok=True)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        paths = []
        for i, v in enumerate(self.violations[:int(os.environ.get("WV_MAX", "5"))]):
            p = os.path.join(rd, '%s-%d.json' % (self.pid, i))
            with open(p, 'w') as f: json.dump(plain(v), f, indent=1)
            paths.append(p)
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                   coverage=dict(model_checking=dict(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces, samples=self.samples or ['-'],
                       parts=self.parts), **self.extra),
                   wall_s=round(time.time() - self.t0, 2),
                   violations=[dict(what=v['what'], replay=p) for v, p in zip(self.violations, paths)],
                   assumptions=self.assumptions)
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f: json.dump(doc, f, indent=1, default=repr)
        for v, p in zip(self.violations, paths):
            print('VIOLATION property=%s replay=%s' % (self.pid, p)); print('  ' + v['what'][:600])
        print('%s: %s tier=%s seed=%d traces=%d states=%d wall=%.1fs violations=%d' % (self.pid,
              'FAIL' if self.violations else 'ok', self.tier, self.seed, self.traces, self.states,
              time.time() - self.t0, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0

def load_findings(pid):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % pid):
                rest = line[len('finding: property=%s ' % pid):].strip()
                key, what = rest.split(' ', 1); assert key.startswith('key=')
                out.append(dict(key=key[4:], what=what))
    return out

def main(pid, fn, level='model_checking'):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except (B.BuildError, T.ModelError) as e:
        print('CHECK-ERROR %s: %s' % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); print('CHECK-ERROR %s' % pid); rc = 2
    B._clean()
    sys.stdout.flush()
    os._exit(rc)
