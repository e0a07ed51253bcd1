"""U01: multibyte/wide conversions and wide literals (spec/Utf8.tla)."""
import itertools, struct, os
from wv import check, libcase as L, lang, host, build
TECHNIQUE = 'TLA+ specification of UTF-8 and the C conversions (Utf8.tla: validity defined by inversion of the encoder), TLC judging recorded calls on systematic byte sequences, code points and string arenas'
NOTE = 'byte sequences over 32 representative bytes (all lengths <= 3, sampled 4-6), code points at every encoding boundary plus a sweep of the range (complete in thorough), string conversions with all output limits'
EILSEQ = 25
F = [('mbtowc', 'errno = 0; k = mbtowc((wchar_t*)P(0), (char*)P(1), N(2)); r((long long)k); r((long long)errno);'),
     ('mblen', 'errno = 0; k = mblen((char*)P(0), N(1)); r((long long)k); r((long long)errno);'),
     ('wctomb', 'errno = 0; k = wctomb((char*)P(0), (wchar_t)I(1)); r((long long)k); r((long long)errno);'),
     ('mbstowcs', 'errno = 0; z = mbstowcs((wchar_t*)P(0), (char*)P(1), N(2)); r((long long)(int)z); r((long long)errno);'),
     ('wcstombs', 'errno = 0; z = wcstombs((char*)P(0), (wchar_t*)P(1), N(2)); r((long long)(int)z); r((long long)errno);'),
     ('range', '''wchar_t w; int e = 0; char *q = (char*)A; for (w = (wchar_t)I(0); w < (wchar_t)I(1); w = w + (wchar_t)I(2)) {
         wchar_t v[1]; char b[8]; int j; b[4] = 'x'; k = wctomb(&b[0], w); if (k < 1 || k > 4 || b[4] != 'x') { e = 1; k = 1; }
         v[0] = -7; if (mbtowc(&v[0], &b[0], (size_t)k) != (w == 0 ? 0 : k) || v[0] != w) e = 2; if (mbtowc(&v[0], &b[0], 6) != (w == 0 ? 0 : k)) e = 4;
         if (k > 1 && mbtowc(&v[0], &b[0], (size_t)(k - 1)) != -1) e = 3;
         for (j = 0; j < k; j = j + 1) { q[0] = b[j]; q = q + 1; } for (j = k; j < 4; j = j + 1) { q[0] = (char)0; q = q + 1; } } r((long long)e);''')]
F = [(n, 'int k; size_t z; ' + b) for n, b in F]
DECL = 'static void *P(int i) { if ((long long)a[i] < 0LL) return NULL; return (void*)(A + (int)a[i]); }\n'
def w4(ws): return b''.join(struct.pack('<i', x) for x in ws)
def grey(b):
    try: return any(0xd800 <= ord(ch) <= 0xdfff for ch in b.decode('utf-8', 'surrogatepass'))
    except UnicodeDecodeError: return None

def literals(c):
    """strings of source characters compiled into L"..." and "..." literals"""
    rng = c.rng; pool = [0x41, 0x7e, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0xe9, 0x20ac, 0x1f600, 0xa0, 0x3042]
    ok = lambda w: w not in (0x22, 0x5c, 0x0a, 0x0d, 0x7f, 0x3f) and not 0xd800 <= w <= 0xdfff and w >= 0x20
    strs = [[w] for w in pool] + [[rng.choice(pool) if rng.random() < .6 else rng.choice([w for w in [rng.randrange(0x20, 0x110000)] if ok(w)] or [65]) for _ in range(rng.randint(0, 12))] for _ in range(c.n(60, 600))]
    data = []; src = ['#include <unistd.h>\n#include <string.h>\nstatic void o(void *p, size_t n) { unsigned char b[4]; b[0] = (unsigned char)(n & 255U); b[1] = (unsigned char)(n >> 8U); write(1, (void*)&b[0], 2); write(1, p, n); }\n']
    esc = lambda w: chr(w) if rng.random() < .5 or w > 0xffff else '\\u%04x' % w
    body = []
    for k, s in enumerate(strs):
        t = ''.join(chr(w) for w in s).encode(); body.append((s, t))
        src.append('static wchar_t w%d[] = L"%s";\nstatic char n%d[] = "%s";\n' % (k, ''.join(map(esc, s)), k, ''.join(map(esc, s))))
    src.append('int main(void) {\n')
    for k in range(len(strs)): src.append('  o((void*)&w%d[0], sizeof(w%d)); o((void*)&n%d[0], sizeof(n%d));\n  { wchar_t *p = L"%s"; size_t m = 0; while (p[m] != 0) m = m + 1; o((void*)p, (m + 1) * 4); }\n' % (k, k, k, k, ''.join(map(esc, strs[k]))))
    src.append('  return 0;\n}\n')
    d = build.scratch(); f = os.path.join(d, 'w.c'); open(f, 'wb').write(''.join(src).encode())
    rc, so, se = c.tool().link([f], f + '.wasm')
    if rc: c.violation('literals', 'wide literals rejected: %s' % se[-300:], dict(source=''.join(src))); return
    out = host.run(open(f + '.wasm', 'rb').read(), host.Host(log_io=False)).out
    blobs, p = [], 0
    while p + 2 <= len(out):
        n = out[p] | out[p + 1] << 8; blobs.append(out[p + 2:p + 2 + n]); p += 2 + n
    if len(blobs) != 3 * len(strs): c.violation('literals:run', 'literal program produced %d of %d objects' % (len(blobs), 3 * len(strs)), dict(source=''.join(src))); return
    for k, (s, t) in enumerate(body):
        for j in (0, 2): data.append(dict(f='literal', a=[], m=list(t) + [0], r=[x[0] for x in struct.iter_unpack('<i', blobs[3 * k + j])], n=[], t=False))
        data.append(dict(f='narrow', a=[], m=list(t) + [0], r=list(blobs[3 * k + 1]), n=[], t=False))
    L.judge(c, 'literals', 'Utf8', data, lambda i: (body[i // 3], data[i]['r']), constants='CONSTANT EILSEQ = %d\n' % EILSEQ)

def run(c):
    rng = c.rng; cases = []
    drv = L.Driver(F, '#include <errno.h>\n', DECL)
    def add(f, a, m): cases.append((f, a, bytes(m)))
    R = [0, 1, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]
    C = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    OUT = b'\xab' * 4
    def mb(b, n=None):
        b = bytes(b); n = len(b) if n is None else n
        add('mbtowc', [0, 5, n], OUT + b'\xcd' + b)
    for b in range(256): mb([b]); add('mblen', [0, 1], [b]); mb([b], 0)
    for b in itertools.product(R, C): mb(b); add('mblen', [0, 2], b)
    for b in itertools.product([x for x in R if x >= 0xc0], C, C): mb(b)
    for b in itertools.product([0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf7], C, C, C): mb(b)
    for _ in range(c.n(1500, 30000)):
        b = [rng.choice([0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, rng.choice(R)])] + [rng.choice([0x80, 0xbf, rng.randrange(256)]) if rng.random() < .9 else rng.randrange(128) for _ in range(rng.randint(0, 6))]
        mb(b); mb(b, rng.randint(0, len(b))); add('mblen', [0, len(b)], b); add('mbtowc', [-1, 0, len(b)], b)
    add('mbtowc', [0, -1, 3], OUT); add('mbtowc', [-1, -1, 0], b''); add('mblen', [-1, 1], b''); add('wctomb', [-1, 65], b'')
    edges = sorted({x + d for x in (0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x10ffff, 0x1fffff, 0x3ffffff, 0x7fffffff, -1, -0x80000000) for d in (-2, -1, 0, 1, 2) if -2**31 <= x + d < 2**31} | {1 << k for k in range(31)} | {-(1 << k) for k in range(31)})
    for w in edges + [rng.randrange(0x110000) for _ in range(300)] + [rng.randrange(-2**31, 2**31) for _ in range(100)]:
        add('wctomb', [0, w], b'\xee' * 5)
    def rch():
        w = rng.choice([0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, rng.randrange(1, 0x800), rng.randrange(1, 0x110000)])
        return w if not 0xd800 <= w < 0xe000 else 0x20ac
    for k in range(c.n(700, 10000)):
        ws = [rch() for _ in range(rng.randint(0, 6))]; b = ''.join(map(chr, ws)).encode()
        if rng.random() < .3:
            p = rng.randint(0, len(b)); bad = rng.choice([b'\x80', b'\xc0\xaf', b'\xff', b'\xe2\x82', b'\xf8\x88\x80\x80\x80', b'\xc2'])
            b = b[:p] + bad + b[p:]
            if grey(b): continue
        for n in {0, 1, len(ws), len(ws) + 1, len(ws) + 2, rng.randint(0, 8)}:
            src = b + b'\0'
            if rng.random() < .5: add('mbstowcs', [len(src) + 1, 0, n], src + b'\xcc' + b'\xab' * (4 * n))
            else: add('mbstowcs', [0, 4 * n, n], b'\xab' * (4 * n) + src)
        add('mbstowcs', [-1, 0, rng.choice([0, 1, 99])], b + b'\0')
        if rng.random() < .25: ws.insert(rng.randint(0, len(ws)), rng.choice([-1, 0x200000, 0x7fffffff, -0x80000000]))
        src = w4(ws + [0]); tot = len(''.join(chr(w) for w in ws if 0 <= w <= 0x10ffff).encode())
        for n in {0, 1, 2, tot - 1, tot, tot + 1, tot + 3, rng.randint(0, tot + 1)}:
            if n < 0: continue
            if rng.random() < .5: add('wcstombs', [len(src), 0, n], src + b'\xab' * n)
            else: add('wcstombs', [0, n, n], b'\xab' * n + src)
        add('wcstombs', [-1, 0, 0], src)
    step = c.n(37, 1); w = 0
    while w < 0x110000:
        e = min(w + 256 * step, 0xd800 if w < 0xd800 else 0x110000)
        n = (e - w + step - 1) // step; add('range', [w, e, step], b'\xff' * (4 * n)); w += n * step
        if 0xd800 <= w < 0xe000: w = 0xe000
    L.validate(c, 'calls', 'Utf8', drv, cases, enc=L.small, constants='CONSTANT EILSEQ = %d\n' % EILSEQ)
    c.sample(cases[1000])
    literals(c)
if __name__ == '__main__': check.main('U01', run)
