"""Conformance of library functions: a driver program performs recorded cases (function, arguments, memory arena),
TLC evaluates the specification on each and compares results and the whole arena.

The arena ends at the last byte of the program's memory, so that reading or writing past it traps."""
import os, struct
from . import host, build, lang, tlc

HEAD = r'''
#include <unistd.h>
#include <stdlib.h>
%s
#define RFD_ %d
static unsigned char *E_;            /* end of memory */
static unsigned char *A;             /* arena */
static unsigned long long a[8];
static unsigned long long hd_[10];
static unsigned char ob_[65536];
static int on_ = 0;
static void fl_(void) { int k = 0; while (k < on_) { int m = (int)write(1, (void*)(&ob_[0] + k), (size_t)(on_ - k)); if (m <= 0) _exit(97); k = k + m; } on_ = 0; }
static void b_(int v) { if (on_ == 65536) fl_(); ob_[on_] = (unsigned char)v; on_ = on_ + 1; }
static void r8_(unsigned long long v) { int i; for (i = 0; i < 8; i = i + 1) { b_((int)(v & 255ULL)); v = v >> 8ULL; } }
static void r(long long v) { b_(1); r8_((unsigned long long)v); }
static void ru(unsigned long long v) { b_(1); r8_(v); }
static void rp(void *q) { b_(1); r8_((unsigned long long)(q == NULL ? -1LL : (long long)((char *)q - (char*)A))); }
static bool rd_(void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t m = read(RFD_, (void*)((char*)p + k), n - k); if (m <= 0) return false; k = k + (size_t)m; } return true; }
static char *S(int i) { return (char*)A + (int)a[i]; }
static int I(int i) { return (int)a[i]; }
static size_t N(int i) { return (size_t)a[i]; }
'''
TAIL = r'''
int main(void) {
  size_t i, n;
  void *w = malloc(60000); if (w == NULL) _exit(96); free(w);
  if (sbrk(%d) == (void*)-1) _exit(95);
  E_ = sbrk(0);
  while (rd_((void*)&hd_[0], 80)) {
    n = (size_t)hd_[1]; A = E_ - n;
    for (i = 0; i < 8; i = i + 1) a[i] = hd_[i + 2];
    if (!rd_((void*)A, n)) _exit(94);
    do_((int)hd_[0]);
    b_(2); r8_((unsigned long long)n); for (i = 0; i < n; i = i + 1) b_((int)A[i]);
    fl_();
  }
  return 0;
}
'''
class Driver:
    """funs: list of (name, C statements using S(i) I(i) N(i) a[i] and r()/rp()); decls: extra C text"""
    def __init__(self, funs, includes='', decls='', arena=65536, infd=0):
        self.names = [f for f, _ in funs]; self.arena = arena
        o = [HEAD % (includes, infd), decls]; self.infd = infd
        for i, (f, body) in enumerate(funs): o.append('static void do%d_(void) { %s }\n' % (i, body))
        o.append('static void do_(int f) {\n  switch (f) {\n')
        for i in range(len(funs)): o.append('    case %d: do%d_(); break;\n' % (i, i))
        o.append('  }\n}\n'); o.append(TAIL % arena)
        self.source = ''.join(o)
    def compile(self, c, opts=()):
        d = build.scratch('wvlib-'); src = os.path.join(d, 'driver.c'); out = os.path.join(d, 'driver.wasm')
        open(src, 'w').write(self.source)
        rc, so, se = c.tool().link([src], out, opts)
        if rc or not os.path.exists(out): return None, (so + se).decode(errors='replace')
        return open(out, 'rb').read(), ''
    def stdin(self, case):
        f, args, mem = case[:3]
        a = [x & (2**64 - 1) for x in args] + [0] * (8 - len(args))
        return struct.pack('<10Q', self.names.index(f), len(mem), *a) + bytes(mem)

def parse(out):
    """-> list of (rets, arena) for completed cases"""
    res, rets, p = [], [], 0
    while p + 9 <= len(out):
        t = out[p]; v = struct.unpack_from('<Q', out, p + 1)[0]; p += 9
        if t == 1: rets.append(v - (1 << 64) if v >> 63 else v)
        else:
            if p + v > len(out): break
            res.append((rets, list(out[p:p + v]))); rets = []; p += v
    return res

def _chunk(a):
    wasm, drv, cases, fuel, hostkw = a
    obs, i = [], 0
    while i < len(cases):
        res = host.run(wasm, host.Host(stdin=b''.join(drv.stdin(x) for x in cases[i:]), log_io=False, infd=drv.infd, **hostkw), fuel)
        done = parse(res.out)[:len(cases) - i]
        obs += [(r, m, '') for r, m in done]; i += len(done)
        if i < len(cases):
            obs.append(([], [], '%s %s %s' % (res.status, res.code, res.msg[-200:]))); i += 1
    return obs

def small(v): return v if -2**31 < v < 2**31 else (2**31 - 1 if v > 0 else -2**31 + 1)
def bytes8(v): return list((v & (2**64 - 1)).to_bytes(8, 'little'))

def execute(c, drv, cases, opts=(), chunk=400, fuel=300_000_000, hostkw={}):
    wasm, msg = drv.compile(c, opts)
    if wasm is None:
        c.violation('driver', 'driver program does not compile: ' + msg[-300:], dict(source=drv.source, msg=msg)); return None
    jobs = [(wasm, drv, cases[i:i + chunk], fuel, hostkw) for i in range(0, len(cases), chunk)]
    return [o for r in lang.pmap(_chunk, jobs) for o in r]

def validate(c, part, module, drv, cases, enc=small, encarg=small, opts=(), key=None, chunk=400, fuel=300_000_000, heap='8g', extra=lambda case: {}, constants='', hostkw={}):
    """cases: list of (fn, args, mem).  The specification prints [i, exp] for every case it rejects."""
    obs = execute(c, drv, cases, opts, chunk, fuel, hostkw)
    if obs is None: return
    data = []
    for case, (r, m, t) in zip(cases, obs):
        f, args, mem = case[:3]
        d = dict(f=f, a=[encarg(x) for x in args], m=list(mem), r=[enc(x) for x in r], n=m, t=bool(t))
        d.update(extra(case)); data.append(d)
    judge(c, part, module, data, lambda i: (cases[i], obs[i]), drv.source, key, heap, constants)

def judge(c, part, module, data, show, source='', key=None, heap='8g', constants='', name=lambda i, d: d['f']):
    t = c.tlc(module, constants + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=data), heap=heap)
    for p in t.prints:
        i = p['i'] - 1; d = data[i]
        s = show(i)
        k = key(d) if key else '%s:%s(%s)' % (part, d['f'], s)
        c.violation(k, '%s: expected %s; case %s' % (d.get('f'), p.get('exp'), short(s)), dict(case=s, expected=p, source=source))
    if t.distinct != 2 * len(data): raise tlc.ModelError('TLC processed %d of %d cases' % (t.distinct - len(data), len(data)))
    c.traces += len(data)
    cnt = {}
    for d in data: cnt[d['f']] = cnt.get(d['f'], 0) + 1
    c.part(part, cases=len(data), by_function=cnt, tlc_s=round(t.wall, 1))

def short(s):
    s = repr(s)
    return s if len(s) < 400 else s[:400] + '...'
