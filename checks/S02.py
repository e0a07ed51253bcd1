"""S02: formatted output (spec/Printf.tla)."""
import os, struct
from wv import check, libcase as L, lang, host, build
TECHNIQUE = 'TLA+ transition system of the format interpreter (Printf.tla), TLC judging recorded calls of all eight output functions: run-time formats through va_list in an arena at the end of memory, and generated programs with literal variadic calls'
NOTE = 'integer, character, string, pointer, %n and %% conversions over all flags, lengths, widths and precisions up to 90; floating-point conversions are not covered; undefined combinations are not generated'
TYPES = {'i': 'int', 'u': 'uint', 'l': 'long', 'L': 'ulong', 'q': 'llong', 'Q': 'ullong', 'z': 'size', 'p': 'voidptr', 'r': 'voidptr'}
TL = 'iulLqQzpr'
DECL = '''
static va_arg_t V[64];
static void args(void) {
  unsigned char *p = A + (int)a[4]; int k;
  for (k = 0; k < (int)a[3]; k = k + 1) {
    unsigned long long v; memset((void*)&V[k], 0x5a, sizeof(va_arg_t)); memcpy((void*)&v, (void*)(p + 1), 8);
    switch ((int)*p) {
      case 0: V[k].va_int = (int)v; break; case 1: V[k].va_uint = (unsigned)v; break; case 2: V[k].va_long = (long)v; break;
      case 3: V[k].va_ulong = (unsigned long)v; break; case 4: V[k].va_llong = (long long)v; break; case 5: V[k].va_ullong = v; break;
      case 6: V[k].va_size = (size_t)v; break; case 7: V[k].va_voidptr = (void*)(A + (int)v); break; case 8: V[k].va_voidptr = (void*)((char*)NULL + (size_t)v); break;
    }
    p = p + 9;
  }
}
static void file(int w) {
  FILE *f = fopen("o", "wb"); int k; char b[64]; ssize_t n; int fd;
  if (w == 1) setvbuf(f, NULL, _IONBF, 0); if (w == 2) setvbuf(f, NULL, _IOLBF, 0); if (w == 3) setvbuf(f, NULL, _IOFBF, 16);
  k = vfprintf(f, S(2), &V[0]); r((long long)k); fclose(f);
  fd = open("o", O_RDONLY); while ((n = read(fd, (void*)&b[0], 64)) > 0) { for (k = 0; k < (int)n; k = k + 1) r((long long)(unsigned char)b[k]); } close(fd);
}
'''
F = [('vsnprintf', 'args(); r((long long)vsnprintf(S(0), N(1), S(2), &V[0]));'), ('vsprintf', 'args(); r((long long)vsprintf(S(0), S(2), &V[0]));'), ('vfprintf', 'args(); file(I(5));')]
def u64(v): return list((v & (2**64 - 1)).to_bytes(8, 'little'))

class Gen:
    def __init__(self, rng): self.rng = rng
    def value(self, n):
        rng = self.rng; b = 8 * n
        v = rng.choice([0, 1, -1, 7, 8, 9, 10, 15, 16, 99, 100, 255, 256, -128, 127, 2**(b - 1) - 1, -2**(b - 1), 2**b - 1, 2**31, 2**32, 10**9, 10**18, rng.randrange(-1000, 1000), rng.randrange(2**b), rng.randrange(1 << rng.randint(1, b))])
        return v & (2**64 - 1)
    def num(self, big=45):
        rng = self.rng
        return rng.choice([0, 1, 2, 3, 5, 8, 10, 11, 12, 16, 20, 31, 32, 33, rng.randint(0, big), 64, 70]) if rng.random() < .9 else rng.randint(0, 90)
    def spec(self, conv=None):
        """-> (format text, [(type, value or string)])"""
        rng = self.rng; args = []
        c = conv or rng.choice('ddiuuxXoobcssspn%')
        if c == '%': return '%%', []
        fl = ''.join(rng.sample('-+ #0', rng.choice([0, 0, 1, 1, 2, 3, 5])))
        if c in 'csp': fl = ''.join(x for x in fl if x == '-')
        if c in 'diu': fl = fl.replace('#', '')
        if c == 'n': fl = ''
        t = '%' + fl
        if c != 'n':
            k = rng.random()
            if k < .45: w = self.num(); t += str(w) if w else ''
            elif k < .6: w = self.num(); args.append(('i', rng.choice([w, -w]))); t += '*'
        if c in 'diuxXobs':
            k = rng.random()
            if k < .4: t += '.' + rng.choice(['', str(self.num()), '0'])
            elif k < .55: t += '.*'; args.append(('i', rng.choice([self.num(), -1, -7, 0])))
        ln, n, ty = '', 4, 'iu'
        if c in 'diuxXobn': ln, n, ty = rng.choice([('', 4, 'iu')] * 3 + [('hh', 1, 'iu'), ('h', 2, 'iu'), ('l', 4, 'lL'), ('ll', 8, 'qQ'), ('j', 8, 'qQ'), ('z', 4, 'zz'), ('t', 4, 'll')])
        t += ln + c
        if c in 'di': args.append((ty[0] if ln != 'z' else 'l', self.value(n if n > 2 else rng.choice([1, 2, 4]))))
        elif c in 'uxXob': args.append((ty[1], self.value(n if n > 2 else rng.choice([1, 2, 4]))))
        elif c == 'c': args.append(('i', rng.choice([0, 10, 65, 127, 128, 255, -1, 256, rng.randrange(256)])))
        elif c == 's': args.append(('s', bytes(rng.choice([0x20, 0x25, 0x41, 0x7f, 0x80, 0xff, rng.randint(1, 255)]) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 40])))))
        elif c == 'p': args.append(('r', rng.choice([0, 1, 0x10, 0xffff, 0x12345678, 0xdeadbeef, 0xffffffff, rng.randrange(2**32)])))
        elif c == 'n': args.append(('n', n))
        # an unterminated string needs a precision within its length
        return t, args
    def format(self, maxn=4):
        rng = self.rng; f, args = b'', []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, maxn])):
            if rng.random() < .3: f += bytes(rng.choice([0x20, 0x41, 0x0a, 0x80, 0xff, 0x09]) for _ in range(rng.randint(1, 6)))
            t, a = self.spec(); f += t.encode(); args += a
        if rng.random() < .2: f += b'!'
        return f, args

def render_len(f, args):
    """generous bound on the output length, for buffer sizes"""
    return len(f) + 100 * f.count(b'%') + sum(len(v) for t, v in args if t == 's')

def runtime(c):
    g = Gen(c.rng); rng = c.rng; cases = []; extra = []
    def add(fn, f, args, size=None, mode=0):
        # arena: [buffer][n stores][args][strings][format at the end of memory] or with the last string at the end
        cap = render_len(f, args) + 8
        n = len(args); buf = 0; size = cap if size is None else size
        if fn == 'vfprintf': cap = size = 0
        if fn == 'vsnprintf': cap = size
        mem = bytearray(b'\xaa' * cap); ns = len(mem)
        mem += b'\xbb' * (8 * sum(t == 'n' for t, _ in args)); ap = len(mem); mem += bytes(9 * n); spec = []
        vals = []; fmtlast = rng.random() < .5; fp = None
        if not fmtlast: fp = len(mem); mem += f + b'\0'
        lastpad = None
        for k, (t, v) in enumerate(args):
            if t == 's':
                # exact precision: the terminator may be missing
                vals.append(('p', len(mem))); mem += v
                pr = prec_of(f, args, k)
                if not (pr is not None and 0 <= pr <= len(v) and rng.random() < .7): mem += b'\0'
            elif t == 'n': vals.append(('p', ns)); ns += 8
            else: vals.append((t, v))
        if fmtlast: fp = len(mem); mem += f + b'\0'
        for k, (t, v) in enumerate(vals): mem[ap + 9 * k:ap + 9 * k + 9] = bytes([TL.index(t)] + u64(v))
        cases.append((fn, [buf, size, fp, n, ap, mode], bytes(mem))); extra.append([u64(v) for _, v in vals])
    def prec_of(f, args, k):
        # the precision that applies to string argument k, or None
        j = 0
        import re
        for m in re.finditer(rb'%[-+ #0]*(\*|\d*)(\.(\*|\d*))?(hh|h|ll|l|j|z|t)?(.)', f):
            if m.group(5) == b'%': continue
            if m.group(1) == b'*': j += 1
            pr = None
            if m.group(2):
                if m.group(3) == b'*': pr = args[j][1]; j += 1; pr = None if pr < 0 else pr
                else: pr = int(m.group(3) or b'0')
            if j == k: return pr
            j += 1
        return None
    def some(f, args):
        x = rng.random()
        if x < .25: add('vsprintf', f, args)
        elif x < .4: add('vfprintf', f, args, mode=rng.randrange(4))
        else: add('vsnprintf', f, args, rng.choice([0, 1, 2, 3, 5, 10, 20, 40, None, None, None]))
    # every flag set x conversion x a small grid
    for conv in 'diuxXob':
        for fs in range(32):
            fl = ''.join(ch for j, ch in enumerate('-+ #0') if fs >> j & 1)
            if '#' in fl and conv in 'diu': continue
            for w in ('', '1', '4', '7', '13'):
                for p in ('', '.', '.1', '.4', '.6', '.12'):
                    if not c.thorough and rng.random() > .3: continue
                    ln, n, ty = rng.choice([('', 4, 'iu'), ('hh', 1, 'iu'), ('h', 2, 'iu'), ('l', 4, 'lL'), ('ll', 8, 'qQ')])
                    some(('%' + fl + w + p + ln + conv).encode(), [(ty[conv not in 'di'], rng.choice([0, g.value(n), g.value(n), rng.randrange(300), 2**64 - rng.randrange(300)]))])
    for _ in range(c.n(6000, 60000)): some(*g.format())
    for x in range(0, 256): add('vsnprintf', b'[%c]', [('i', x)])
    for x in range(0, 256, c.n(5, 1)): add('vfprintf', b'%c%3c|%-3c|', [('i', x)] * 3, mode=x % 4)
    # the size limit at every offset around the output length
    f, args = b'ab%5d-%s', [('i', 42), ('s', b'xyz')]
    for n in range(0, 16): add('vsnprintf', f, args, n)
    for w in (50, 63, 64, 65, 90, 200, 300):
        for fl in ('', '0', '-', '+0'):
            for t in ('d', 'x', 's', 'c', 'llb'):
                if t in 'sc' and fl not in ('', '-'): continue
                if t != 's' or w < 250: add('vsnprintf', ('%%%s%d%s' % (fl, w, t)).encode(), [{'s': ('s', b'q'), 'llb': ('Q', 2**64 - 3), 'x': ('u', 77)}.get(t, ('i', 77))], 400)
                if t in ('d', 'x', 'llb'): add('vsnprintf', ('%%%s.%d%s' % (fl, w, t)).encode(), [{'llb': ('Q', 5), 'x': ('u', 77)}.get(t, ('i', -77))], 400)
    ex = {id(x): e for x, e in zip(cases, extra)}
    L.validate(c, 'runtime', 'Printf', L.Driver(F, '#include <stdio.h>\n#include <string.h>\n#include <stdarg.h>\n#include <fcntl.h>\n', DECL), cases, extra=lambda x: dict(args=ex[id(x)]))
    c.sample(cases[50])

class Rec(host.Host):
    def __init__(self, **k): super().__init__(**k); self.ev = []
    def fd_write(self, fd, iv, n, r, off=None):
        if fd in (1, 2): self.ev.append((fd, b''.join(self.rd(a, l) for a, l in self.iovs(iv, n))))
        return super().fd_write(fd, iv, n, r, off)

B = 512
PROG = '''#include <stdio.h>
#include <unistd.h>
#include <string.h>
#include <stdarg.h>
static char b[%d];
static long long ns[4];
static FILE *f;
static void end(int r) {
  char t[8];
  fflush(stdout); memcpy((void*)&t[0], (void*)&r, 4);
  write(2, (void*)&t[0], 4); write(2, (void*)&b[0], sizeof(b)); write(2, (void*)&ns[0], sizeof(ns)); write(2, "", 0);
  memset((void*)&b[0], 0xaa, sizeof(b)); memset((void*)&ns[0], 0xbb, sizeof(ns));
}
static int w_vprintf(const char *s, ...) { va_list ap; int r; va_start(ap, s); r = vprintf(s, ap); va_end(ap); return r; }
static int w_vfprintf(FILE *f, const char *s, ...) { va_list ap; int r; va_start(ap, s); r = vfprintf(f, s, ap); va_end(ap); return r; }
static int w_vsprintf(char *q, const char *s, ...) { va_list ap; int r; va_start(ap, s); r = vsprintf(q, s, ap); va_end(ap); return r; }
static int w_vsnprintf(char *q, size_t n, const char *s, ...) { va_list ap; int r; va_start(ap, s); r = vsnprintf(q, n, s, ap); va_end(ap); return r; }
''' % B
def cstr(b):
    o = ''
    for x in b: o += chr(x) if 32 <= x < 127 and x not in (34, 92, 63) else '\\%03o' % x
    return '"%s"' % o
def lit(t, v, k):
    if t == 's': return cstr(v)
    if t == 'n': return '(void*)((char*)&ns[0] + %d)' % (8 * k)
    if t == 'r': return '(void*)((char*)NULL + %dU)' % (v & 0xffffffff)
    ct = {'i': 'int', 'u': 'unsigned', 'l': 'long', 'L': 'unsigned long', 'q': 'long long', 'Q': 'unsigned long long', 'z': 'size_t'}[t]
    return '(%s)%dULL' % (ct, v & (2**64 - 1))
def job(a):
    tool, src, n = a
    d = build.scratch(); p = os.path.join(d, 'p.c'); open(p, 'w').write(src)
    rc, so, se = tool.link([p], p + '.wasm')
    if rc: return None, (so + se).decode(errors='replace')
    h = Rec(log_io=False); res = host.run(open(p + '.wasm', 'rb').read(), h)
    return h.ev, '%s %s %s' % (res.status, res.code, res.msg[-200:])
def literal(c):
    g = Gen(c.rng); rng = c.rng; jobs, progs = [], []
    for _ in range(c.n(12, 120)):
        cs, o = [], [PROG]
        for k in range(100):
            while True:
                f, args = g.format()
                if sum(t == 'n' for t, _ in args) <= 4 and b'\xff' not in f and b'\x80' not in f and render_len(f, args) < B - 8: break
            fn = rng.choice(['printf', 'fprintf', 'sprintf', 'snprintf', 'vprintf', 'vfprintf', 'vsprintf', 'vsnprintf'])
            nk, al = 0, []
            for t, v in args: al.append(lit(t, v, nk)); nk += t == 'n'
            size = rng.choice([0, 1, 2, 5, 12, 40, B, B]) if fn.endswith('snprintf') else B
            pre = {'p': '', 'f': 'stdout, ', 's': '&b[0], '}[fn.lstrip('v')[0]] + ('%d, ' % size if fn.endswith('snprintf') else '')
            o.append('static int c%d(void) { return %s(%s%s%s); }\n' % (k, 'w_' + fn if fn[0] == 'v' else fn, pre, cstr(f), ''.join(', ' + x for x in al)))
            cs.append((fn, f, args, size))
        o.append('int main(void) { memset((void*)&b[0], 0xaa, sizeof(b)); memset((void*)&ns[0], 0xbb, sizeof(ns)); %s\n' % rng.choice(['', 'setvbuf(stdout, NULL, _IONBF, 0);', 'setvbuf(stdout, NULL, _IOLBF, 64);', 'setvbuf(stdout, NULL, _IOFBF, 700);']))
        o += ['  end(c%d());\n' % k for k in range(100)] + ['  return 0;\n}\n']
        jobs.append((c.tool(), ''.join(o), 100)); progs.append(cs)
    data, show = [], []
    for (tool, src, n), cs, (ev, msg) in zip(jobs, progs, lang.pmap(job, jobs)):
        if ev is None: c.violation('literal', 'program rejected: ' + msg[-300:], dict(source=src)); continue
        out, err, k = b'', b'', 0
        for fd, b in ev + [(9, b'')]:
            if fd == 1: out += b
            elif fd == 2:
                err += b
            if len(err) == 4 + B + 32:
                fn, f, args, size = cs[k]; k += 1
                r = struct.unpack('<i', err[:4])[0]
                mem = bytearray(b'\xaa' * B + b'\xbb' * 32); obs = bytearray(err[4:]); tail = bytearray(f + b'\0'); fp = len(mem); vals = []; nk = 0
                for t, v in args:
                    if t == 's': vals.append(u64(fp + len(tail))); tail += v + b'\0'
                    elif t == 'n': vals.append(u64(B + 8 * nk)); nk += 1
                    else: vals.append(u64(v))
                data.append(dict(f=fn, a=[0, size, fp], args=vals, m=list(mem + tail), n=list(obs + tail), r=[r] + list(out), t=False))
                show.append((fn, f, args, size, r, bytes(out), bytes(obs[:60]))); out = err = b''
        if k < len(cs): data.append(dict(f=cs[k][0], a=[0, 0, 0], args=[], m=[0], n=[0], r=[], t=True)); show.append((cs[k], msg))
    L.judge(c, 'literal', 'Printf', data, lambda i: show[i], name=lambda i, d: d['f'])
    c.sample(show[0])

def run(c):
    runtime(c); literal(c)
if __name__ == '__main__': check.main('S02', run)
