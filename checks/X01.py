"""X01: program start and termination (spec/Process.tla, Startup.tla)."""
import itertools, os
from wv import check, host, build, lang, libcase as L
TECHNIQUE = 'TLA+ transition system of process termination (Process.tla: handlers, stream buffers, exit routes) stepped by TLC for scripts of actions and compared with what the host saw; TLC judging argument and environment delivery (Startup.tla)'
NOTE = 'all main scripts of up to 3 actions with sampled handler scripts, six exit routes, three start-up variants; argument and environment lists with sizes around the area limit, up to thousands of strings'
PROG = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int n_ = 0;
static FILE *f_ = NULL;
static int v_ = 0;
static char *h_[4];
static char t_[16];
static void h1_(void); static void h2_(void); static void h3_(void);
static void run_(char *s) {
  char *p; int k;
  for (p = s; *p != '\0'; p = p + 1) {
    k = n_;
    switch (*p) {
      case 'P': n_ = n_ + 1; printf("P%d,", k); break;
      case 'W': n_ = n_ + 1; t_[0] = 'W'; t_[1] = '\0'; k = sprintf(&t_[0], "W%d,", k); write(1, (void*)&t_[0], (size_t)k); break;
      case 'f': fflush(stdout); break;
      case 'E': n_ = n_ + 1; fprintf(stderr, "E%d,", k); break;
      case 'F': n_ = n_ + 1; if (f_ == NULL) f_ = fopen("out.txt", "w"); if (f_ == NULL) _exit(90); fprintf(f_, "F%d,", k); break;
      case 'G': if (f_ != NULL) fflush(f_); break;
      case '1': atexit(&h1_); break;
      case '2': atexit(&h2_); break;
      case '3': atexit(&h3_); break;
      case 'a': abort(); break;
      case 'q': _exit(v_); break;
      case 'x': exit(v_); break;
    }
  }
}
static void h1_(void) { run_(h_[1]); }
static void h2_(void) { run_(h_[2]); }
static void h3_(void) { run_(h_[3]); }
static char *env_(char *s) { char *p = getenv(s); return p == NULL ? "" : p; }
static int start_(void) {
  char *m = env_("M");
  h_[1] = env_("H1"); h_[2] = env_("H2"); h_[3] = env_("H3");
  v_ = atoi(env_("V"));
  run_(m);
  return v_;
}
@MAIN@
'''
MAINS = ['int main(void) { return start_(); }', 'int main(int argc, char **argv) { return start_(); }', 'int main(int argc, char *argv[]) { return start_(); }']
def compile_(c, src, opts=()):
    d = build.scratch('wvx-'); p = os.path.join(d, 'p.c'); o = os.path.join(d, 'p.wasm'); open(p, 'w').write(src)
    rc, so, se = c.tool().link([p], o, opts)
    if rc or not os.path.exists(o):
        c.violation('compile', 'program does not compile: ' + (so + se).decode(errors='replace')[-300:], dict(source=src)); return None
    return open(o, 'rb').read()
def s32(v): return None if v is None else v - (1 << 32) if v >> 31 else v
def _life(a):
    out = []
    for wasm, m, h, v in a:
        hs = host.Host(argv=[b'p'], env=['M=' + m, 'H1=' + h[0], 'H2=' + h[1], 'H3=' + h[2], 'V=%d' % v], log_io=False)
        r = host.run(wasm, hs, 50_000_000)
        nd = hs.fds[3].node.ents.get(b'out.txt')
        out.append(dict(how=r.status, code=s32(r.code) if r.code is not None else -99, out=list(r.out), err=list(r.err), file=[-1] if nd is None else list(nd.data)))
    return out
def calls(m, h, lim=8):
    """number of handler calls (None when it never ends)"""
    regs = []; k = 0
    def go(s, main):
        for a in s:
            if a in '123': regs.append(int(a))
            if a in 'aq' or (a == 'x' and main): return a
        return ''
    e = go(m, True)
    if e in ('a', 'q'): return e, 0
    while regs:
        k += 1
        if k > lim: return None, k
        e = go(h[regs.pop() - 1], False)
        if e: return e, k
    return '', k
def lifecycle(c):
    rng = c.rng
    wasms = []
    for m in MAINS:
        for o in ([], ['-a', '0']) if 'argv' in m else ([],):
            w = compile_(c, PROG.replace('@MAIN@', m), o)
            if w is None: return
            wasms.append(w)
    acts = 'PWfEFG12'; cases = []
    def add(m, h, v):
        e, k = calls(m, h)
        if e is None: return
        cases.append((rng.choice(wasms), m, h, v, e))
    H = [''.join(t) for k in range(3) for t in itertools.product('PWF23f', repeat=k)] + ['a', 'q', 'Pa', 'Wq', 'PG', 'E']
    vs = [0, 1, 42, 255, 256, -1, 2**31 - 1, -2**31]
    for k in range(4):
        for t in itertools.product(acts, repeat=k):
            for e in ('', 'x') if k < 3 else (rng.choice(['', '', 'x', 'a', 'q']),): add(''.join(t) + e, [rng.choice(H), rng.choice(H), rng.choice(['P', 'W', 'F', ''])], rng.choice(vs))
    for k in range(3):
        for t in itertools.product(acts, repeat=k):
            for e in 'aq': add(''.join(t) + e, [rng.choice(H), rng.choice(H), 'P'], rng.choice(vs))
    for _ in range(c.n(1500, 20000)):
        m = ''.join(rng.choice('PPWWfEFG123123') for _ in range(rng.randint(2, 14))) + rng.choice(['', '', 'x', 'xP', 'a', 'q'])
        hs = [''.join(rng.choice('PPWWfEFG' + ('23' if j == 0 else '3' if j == 1 else '') + ('aq' if rng.random() < .1 else '')) for _ in range(rng.randint(0, 4))) for j in range(3)]
        e, k = calls(m, hs, 31)
        if e is not None and m.count('1') + m.count('2') + m.count('3') + 2 * k <= 31: cases.append((rng.choice(wasms), m, hs, rng.choice(vs), e))
    jobs = [[x[:4] for x in cases[i:i + 100]] for i in range(0, len(cases), 100)]
    obs = [o for r in lang.pmap(_life, jobs) for o in r]
    data = [dict(o, main=[ord(a) for a in x[1]], h=[[ord(a) for a in s] for s in x[2]], status=x[3], aborts=x[4] == 'a') for x, o in zip(cases, obs)]
    t = c.tlc('Process', 'INIT Init\nNEXT Next\nINVARIANT Complete\nCHECK_DEADLOCK FALSE\n', data=dict(data=data), heap='8g')
    for p in t.prints:
        x, o = cases[p['i'] - 1], obs[p['i'] - 1]
        c.violation('life:%s:%s:%s' % (x[1], x[2], x[3]), 'main %r handlers %r status %d: expected out %r file %r code %s, got %s' % (x[1], x[2], x[3], bytes(p['exp']['out']), p['exp']['file'], p['exp']['code'], dict(o, out=bytes(o['out']))), dict(case=x[1:], expected=p, got=o))
    c.traces += len(cases)
    c.part('lifecycle', scripts=len(cases), model_states=t.distinct)
    c.sample(dict(main=cases[-1][1], handlers=cases[-1][2], observed=dict(obs[-1], out=bytes(obs[-1]['out']).decode())))
LIMIT = r'''
#include <stdio.h>
#include <stdlib.h>
static int n_ = 0;
static void h_(void) { n_ = n_ + 1; printf("%%d ", n_); }
int main(void) { int k = 0, j; %s for (j = 0; j < %d; j = j + 1) if (atexit(&h_) == 0) k = k + 1; printf("%%d: ", k); return 0; }
'''
def limit(c):
    """registering many handlers: at least 32 registrations succeed; exactly the successful ones run; their output survives"""
    data, shown = [], []
    for pre in ('', 'printf(" ");'):
        for n in (0, 1, 31, 32, 33, 40):
            w = compile_(c, LIMIT % (pre, n))
            if w is None: return
            r = host.run(w, host.Host(log_io=False), 50_000_000)
            t = r.out.split(); shown.append((pre, n, r.status, r.out))
            data.append(dict(f='limit', n=n, how=r.status, taken=int(t[0].rstrip(b':')) if t else -1, got=[int(x) for x in t[1:]]))
    L.judge(c, 'limit', 'Startup', data, lambda i: shown[i], LIMIT)
ARGS = r'''
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
static void w_(void *p, size_t n) { char *q = p; while (n > 0) { ssize_t k = write(1, (void*)q, n); if (k <= 0) _exit(91); q = q + k; n = n - (size_t)k; } }
static int nv_[2];
int main(int argc, char **argv) {
  int k; size_t n;
  nv_[0] = argc; w_((void*)&nv_[0], 4);
  for (k = 0; k < argc; k = k + 1) { n = strlen(argv[k]); nv_[0] = (int)n; w_((void*)&nv_[0], 4); w_((void*)argv[k], n); }
  nv_[0] = argv[argc] == NULL ? 7 : 8; w_((void*)&nv_[0], 4);
  return 0;
}
'''
ENV = r'''
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
static void w_(void *p, size_t n) { char *q = p; while (n > 0) { ssize_t k = write(1, (void*)q, n); if (k <= 0) _exit(91); q = q + k; n = n - (size_t)k; } }
static int nv_[2];
int main(int argc, char **argv) {
  int k; size_t n; char *v;
  for (k = 1; k < argc; k = k + 1) {
    v = getenv(argv[k]);
    if (v == NULL) { nv_[0] = -1; w_((void*)&nv_[0], 4); }
    else { n = strlen(v); nv_[0] = (int)n; w_((void*)&nv_[0], 4); w_((void*)v, n); }
  }
  nv_[0] = 7; w_((void*)&nv_[0], 4);
  return 0;
}
'''
def unpack(b, counted):
    p = 0; out = []
    def i4():
        nonlocal p
        v = int.from_bytes(b[p:p + 4], 'little', signed=True); p += 4; return v
    n = i4() if counted else None
    while p < len(b) - 4:
        k = i4(); out.append(None if k < 0 else b[p:p + k]); p += max(k, 0)
    end = i4()
    return out if end == 7 and (n is None or n == len(out)) else None
def _start(a):
    r = host.run(a[0], host.Host(argv=a[1], env=a[2], log_io=False), 500_000_000)
    return r.status if r.code == 0 else '%s %s %s' % (r.status, r.code, r.msg[-100:]), r.out, r.err
def startup(c):
    rng = c.rng; jobs, meta = [], []
    def word(n): return bytes(rng.choice(b'abcXYZ019 _-/.\xc3\xa9\xff"\'') for _ in range(n))
    def lists(area):
        L_ = [[], [b''], [b'p'], [b'p', b''], [b'p', b'', b'', b''], [b'p', b'a', b'bb', b'ccc'], [b'prog', b'--x=1 2', b'\xc3\xa9\xff']]
        for _ in range(c.n(6, 60)): L_.append([word(rng.choice([0, 1, 2, 5, 15, 16, 17, 40])) for _ in range(rng.randint(1, 20))])
        big = max(area, 200) if area > 0 else 2000
        for d in list(range(-20, 21, 1 if c.thorough else 2)) + [-5, 1000]:   # total need around the limit
            k = rng.choice([1, 1, 2, 5, 30]); room = big + d - 4 * (k + 1) - k
            if room > 0: L_.append([word(0) for _ in range(k - 1)] + [word(room)])
        if area == 0: L_ += [[word(1) for _ in range(5000)], [word(60000), word(3)], [word(300) for _ in range(300)]]
        return L_
    for area in [None, 0, 512, 513, 520, 1000, 4096, 65536]:
        w = compile_(c, ARGS, [] if area is None else ['-a', str(area)])
        if w is None: return
        for a in lists(4096 if area is None else area):
            jobs.append((w, a, [])); meta.append(('args', 4096 if area is None else -1 if area == 0 else area, a, [], []))
    w = compile_(c, ENV, ['-a', '0'])
    if w is None: return
    NM = [b'A', b'AB', b'ABC', b'PATH', b'_', b'a', b'B', b'lang', b'ZZ9', b'', b'AA']
    envs = [[], [b'A=1'], [b'AB=2', b'A=1'], [b'A=1', b'A=2'], [b'A='], [b'A==b=c'], [b'A'], [b'=x', b'A=y'], [b'ABC=1', b'AB=2', b'A=3', b'=4'], [b'']]
    for _ in range(c.n(150, 2000)):
        envs.append([rng.choice(NM) + rng.choice([b'=', b'=', b'=', b'=', b'']) + word(rng.choice([0, 1, 3, 16, 100])) for _ in range(rng.randint(0, 12))])
    envs += [[b'V%d=%d' % (k, k) for k in range(3000)] + [b'A=last'], [b'A=' + word(40000), b'B=' + word(70000)]]
    for e in envs:
        names = rng.sample(NM, 5) + [b'V77', b'V2999']
        jobs.append((w, [b'p'] + names, e)); meta.append(('env', -1, [], e, names))
    obs = lang.pmap(_start, jobs); data = []
    for (f, area, a, e, names), (how, out, err) in zip(meta, obs):
        g = unpack(out, f == 'args') if how == 'exit' else []
        enc = list
        data.append(dict(f=f, area=area, argv=[enc(x) for x in a], env=[list(x) for x in e], names=[list(x) for x in names], how=how if g is not None else 'garbled',
                         got=[[-1] if x is None else enc(x) for x in (g or [])], told=b'internal error' in err))
    def name(i): return (meta[i][0], meta[i][1], meta[i][2] or meta[i][3], meta[i][4], obs[i])
    L.judge(c, 'startup', 'Startup', data, name, ARGS + ENV, key=None)
def run(c):
    lifecycle(c); limit(c); startup(c)
if __name__ == '__main__': check.main('X01', run)
