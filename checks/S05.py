"""S05: qsort, bsearch, abs/div, rand (spec/Sorting.tla)."""
import itertools
from wv import check, libcase as L
TECHNIQUE = 'TLA+ specification of sorting (permutation and order), searching, division and the rand48 recurrence (Sorting.tla), TLC judging recorded calls of the compiled library'
NOTE = 'all arrays of up to 6 elements over 3 keys, element sizes 1..33, random arrays up to 200 elements, comparators check that they only receive element addresses; boundary grid for abs/div; random seeds'
DECL = r'''
static unsigned char *bs_; static size_t bn_, bw_; static int bo_, bad_; static void *bk_;
static void chk_(const void *p) {
  size_t d = (size_t)((unsigned char*)(void*)p - bs_);
  if ((unsigned char*)(void*)p < bs_ || d >= bn_ * bw_ || d % bw_ != 0) bad_ = 1;
}
static int key_(const void *p) {
  unsigned char *e = (unsigned char*)(void*)p;
  switch (bo_) {
    case 0: return (int)e[0];
    case 1: return -(int)e[0];
    case 2: return (int)e[0] % 4;
    case 3: return (int)e[bw_ - 2] + 256 * ((int)e[bw_ - 1] > 127 ? (int)e[bw_ - 1] - 256 : (int)e[bw_ - 1]);
    case 4: return 0;
  }
  return 0;
}
static int cmp_(const void *p, const void *q) { chk_(p); chk_(q); return (key_(p) - key_(q)) * 3; }
static int cmpk_(const void *p, const void *q) { if ((void*)p != bk_) bad_ = 2; chk_(q); return (key_(p) - key_(q)) * 1000; }
static void set_(void) { bs_ = A + I(0); bn_ = N(1); bw_ = N(2); bo_ = I(3); bad_ = 0; }
'''
F = [('qsort', 'set_(); qsort((void*)bs_, bn_, bw_, &cmp_); r((long long)bad_);'),
     ('bsearch', 'void *p; set_(); bk_ = (void*)(A + I(4)); p = bsearch(bk_, (void*)bs_, bn_, bw_, &cmpk_); rp(p); r((long long)bad_);'),
     ('abs', 'r((long long)abs(I(0)));'), ('labs', 'r((long long)labs((long)I(0)));'), ('llabs', 'r(llabs((long long)a[0]));'),
     ('div', 'div_t d; d = div(I(0), I(1)); r((long long)d.quot); r((long long)d.rem);'),
     ('ldiv', 'ldiv_t d; d = ldiv((long)I(0), (long)I(1)); r((long long)d.quot); r((long long)d.rem);'),
     ('lldiv', 'lldiv_t d; d = lldiv((long long)a[0], (long long)a[1]); r(d.quot); r(d.rem);'),
     ('rand', 'int k; if (a[2] == 0ULL) srand((unsigned)a[0]); for (k = 0; k < I(1); k = k + 1) r((long long)rand());')]
def run(c):
    rng = c.rng; cases = []
    drv = L.Driver(F, '', DECL, arena=1 << 17)
    def add(f, a, m): cases.append((f, a, bytes(m)))
    G = b'\xf7'
    def key(o, e): return [e[0], -e[0], e[0] % 4, int.from_bytes(e[-2:], 'little', signed=True) if len(e) > 1 else 0, 0][o]
    def both(es, w, o, keys):
        es = [bytes(e) for e in es]
        add('qsort', [1, len(es), w, o], G + b''.join(es) + G); add('qsort', [2, len(es), w, o], G * 2 + b''.join(es))
        ss = sorted(es, key=lambda e: key(o, e))
        for k in keys: add('bsearch', [w + 1, len(ss), w, o, 0], bytes(k) + G + b''.join(ss))
    for n in range(0, 7):
        for t in itertools.product((10, 20, 30), repeat=n):
            if n == 6 and not c.thorough and rng.random() < .5: continue
            w = rng.choice([1, 2, 3, 4, 5, 8, 12])
            es = [bytes([x]) + bytes(rng.randrange(256) for _ in range(w - 1)) for x in t]
            both(es, w, rng.choice([0, 1]), [bytes([k]) * w for k in rng.sample([5, 10, 15, 20, 25, 30, 35], 3)])
    for n in range(0, 8):               # all positions found, all gaps missed, for every length
        for w in (1, 4):
            m = b''.join(bytes([10 * k + 10]) * w for k in range(n))
            for k in range(2 * n + 1): add('bsearch', [w, n, w, 0, 0], bytes([5 * k + 5]) * w + m)
    for _ in range(c.n(250, 4000)):
        n = rng.choice([rng.randint(0, 20), rng.randint(0, 60), rng.randint(0, 200)]); w = rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 12, 16, 24, 33])
        o = rng.choice([0, 1, 2, 3, 4] if w > 1 else [0, 1, 2, 4])
        al = rng.choice([[0, 255], list(range(4)), list(range(256))])
        es = [bytes(rng.choice(al) for _ in range(w)) for _ in range(n)]
        sh = rng.random()
        if sh < .15: es.sort(key=lambda e: key(o, e))
        elif sh < .3: es.sort(key=lambda e: -key(o, e))
        elif sh < .4: es = es[n // 2:] + sorted(es[:n // 2], key=lambda e: key(o, e))
        both(es, w, o, [bytes(rng.choice(al) for _ in range(w)) for _ in range(2)] + ([rng.choice(es)] if es else []))
    L.validate(c, 'arrays', 'Sorting', drv, cases, heap='12g')
    c.sample(cases[700])
    cases = []
    for f, t in (('abs', 32), ('labs', 32), ('llabs', 64), ('div', 32), ('ldiv', 32), ('lldiv', 64)):
        lo = -(1 << (t - 1)); vs = [0, 1, -1, 2, -2, 7, -7, 10, -10, 1000003, -1000003, -lo - 1, lo, lo + 1, 65536, -65536] + [rng.randrange(lo, -lo) for _ in range(6)]
        if t == 64: vs += [1 << 32, -(1 << 32), (1 << 31), -(1 << 31), (1 << 63) // 3]
        for x in vs:
            if f.endswith('abs'):
                if x != lo: cases.append((f, [x], b''))
            else: cases += [(f, [x, y], b'') for y in vs if y and not (x == lo and y == -1)]
    for s in [0, 1, 2, 3, 65535, 65536, 0xffffffff, 0x80000000, 12345] + [rng.randrange(1 << 32) for _ in range(c.n(30, 400))]:
        cases.append(('rand', [s, 40], b''))
    L.validate(c, 'arith', 'Sorting', drv, cases, enc=L.bytes8, encarg=L.bytes8)
    L.validate(c, 'unseeded', 'Sorting', drv, [('rand', [1, 30, 1], b'')], enc=L.bytes8, encarg=L.bytes8)
if __name__ == '__main__': check.main('S05', run)
