"""H01: the heap (spec/Heap.tla, HeapMC.tla, HeapTrace.tla)."""
import itertools, os, struct
from wv import check, host, build, lang, libcase as L
TECHNIQUE = 'TLA+ model of the heap (Heap.tla) with the buddy algorithm model-checked against it on a small heap (HeapMC.tla); recorded allocation histories of the compiled library validated step by step by TLC (HeapTrace.tla)'
NOTE = 'all histories of up to 5 calls over 4 sizes and free, random histories of up to 300 calls with sizes 0..10 MB and beyond any block, memory limits, interleaved sbrk; block contents verified at every release and resize; placement, reuse, growth and failure judged exactly'
PROG = r'''
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
static int a_[8];
static unsigned char *p_[64]; static size_t z_[64]; static int sd_[64];
static int ob_[8];
static unsigned char buf_[65536]; static int bp_ = 0, bn_ = 0;
static bool rd_(void *q, int n) {
  unsigned char *d = q;
  while (n > 0) {
    if (bp_ == bn_) { bn_ = (int)read(0, (void*)&buf_[0], 65536); bp_ = 0; if (bn_ <= 0) return false; }
    *d = buf_[bp_]; d = d + 1; bp_ = bp_ + 1; n = n - 1;
  }
  return true;
}
static int pat_(int s, size_t i) { return (s * 37 + (int)i * 11 + (int)(i >> 8UL)) & 255; }
static int pages_(void) { return (int)((size_t)sbrk(0) >> 16UL); }
static void fill_(int s, int seed) {
  size_t i, n = z_[s], e = n < 1024UL ? n : 1024UL; sd_[s] = seed;
  for (i = 0; i < e; i = i + 1) p_[s][i] = (unsigned char)pat_(seed, i);
  for (i = n < 64UL ? 0UL : n - 64UL; i < n; i = i + 1) p_[s][i] = (unsigned char)pat_(seed, i);
}
/* bytes of block q that differ from what was put in slot s, looking below lim */
static int diff_(int s, unsigned char *q, size_t lim) {
  size_t i, n = z_[s], e = n < 1024UL ? n : 1024UL; int bad = 0;
  for (i = 0; i < e; i = i + 1) if (i < lim && (int)q[i] != pat_(sd_[s], i)) bad = bad + 1;
  for (i = n < 64UL ? 0UL : n - 64UL; i < n; i = i + 1) if (i < lim && (int)q[i] != pat_(sd_[s], i)) bad = bad + 1;
  return bad;
}
int main(void) {
  int k, bad, seed = 1; size_t n, i; unsigned char *q;
  ob_[0] = pages_(); ob_[1] = (int)(size_t)&a_[0]; ob_[2] = (int)(size_t)alloca(16);
  write(1, (void*)&ob_[0], 12);
  while (rd_((void*)&a_[0], 16)) {
    k = a_[1]; n = (size_t)a_[2]; q = NULL; bad = 0; seed = seed + 1;
    switch (a_[0]) {
      case 'm': q = malloc(n); if (q != NULL) { p_[k] = q; z_[k] = n; fill_(k, seed); } break;
      case 'c': q = calloc((size_t)a_[3], n); n = n * (size_t)a_[3];
        if (q != NULL) {
          for (i = 0; i < (n < 2048UL ? n : 2048UL); i = i + 1) if (q[i] != 0) bad = bad + 1;
          for (i = n < 2048UL ? 0UL : n - 2048UL; i < n; i = i + 1) if (q[i] != 0) bad = bad + 1;
          p_[k] = q; z_[k] = n; fill_(k, seed);
        } break;
      case 'r': if (p_[k] != NULL) bad = diff_(k, p_[k], z_[k]);
        q = realloc((void*)p_[k], n);
        if (q != NULL) { if (p_[k] != NULL) bad = bad + diff_(k, q, n); p_[k] = q; z_[k] = n; fill_(k, seed); }
        else if (n == 0 && p_[k] != NULL) p_[k] = NULL;
        else if (p_[k] != NULL) bad = bad + diff_(k, p_[k], z_[k]);
        break;
      case 'f': if (p_[k] != NULL) bad = diff_(k, p_[k], z_[k]); free((void*)p_[k]); p_[k] = NULL; break;
      case 'v': for (k = 0; k < 64; k = k + 1) if (p_[k] != NULL) bad = bad + diff_(k, p_[k], z_[k]); break;
      case 's': q = sbrk((intptr_t)n * 65536); if (q == (unsigned char*)(void*)-1) q = NULL; else memset((void*)q, 255, n * 65536UL); break;
    }
    ob_[0] = (int)(size_t)q; ob_[1] = pages_(); ob_[2] = bad;
    write(1, (void*)&ob_[0], 12);
  }
  return 0;
}
'''
MAX = 0x7ffffff0
def _run(a):
    out = []
    for wasm, ops, limit in a:
        inp = b''.join(struct.pack('<iiII', ord(o[0]), o[1], o[2] & 0xffffffff, o[3] & 0xffffffff) for o in ops)
        r = host.run(wasm, host.Host(stdin=inp, log_io=False), 3_000_000_000, limit * 65536)
        out.append((r.status, r.code, r.out, r.msg[-200:]))
    return out
def validate(c, wasm, part, cases):
    """cases: (ops, limit in pages); op = (letter, slot, n, m)"""
    jobs = [[(wasm, o, l) for o, l in cases[i:i + 40]] for i in range(0, len(cases), 40)]
    obs = [x for r in lang.pmap(_run, jobs) for x in r]
    data = []; ix = []
    for j, ((ops, limit), (st, code, out, msg)) in enumerate(zip(cases, obs)):
        v = struct.unpack('<%dI' % (len(out) // 4), out)
        if st != 'exit' or code != 0 or len(v) != 3 * len(ops) + 3:
            k = max(0, len(v) // 3 - 1)
            c.violation('%s:%s' % (part, 'trap'), 'program fails (%s %s) after %d calls: next %s' % (st, msg, k, ops[k:k + 1]), dict(ops=ops[:k + 1], msg=msg)); continue
        base = max(v[1], v[2]) // 16 + 1
        ev = []
        for k, o in enumerate(ops):
            a, pg, bad = v[3 * k + 3:3 * k + 6]
            n = o[2] * o[3] if o[0] == 'c' else o[2]
            ev.append(dict(op='m' if o[0] == 'c' else o[0], s=o[1], n=n if n <= MAX else -1, a=a // 16 if a % 16 == 0 else -1, pg=pg, bad=bad))
        data.append(dict(pages=v[0], base=base, limit=limit, ev=ev)); ix.append(j)
    t = c.tlc('HeapTrace', 'CONSTANTS PAGE = 4096 PCLASS = 11 SLOTS = {}\nINIT Init\nNEXT Next\nINVARIANT Disjoint\nCHECK_DEADLOCK FALSE\n', data=dict(data=data), heap='12g')
    for p in t.prints:
        j = ix[p['i'] - 1]; k = p['k']
        c.violation('%s:%s' % (part, cases[j][0][:k] if k < 20 else (k, cases[j][0][k - 5:k])), 'call %d %s (limit %d pages): recorded %s with %d blocks live, %s pages' % (k, cases[j][0][k - 1], cases[j][1], p['ev'], len(p['live']), p['pages']), dict(ops=cases[j][0][:k], limit=cases[j][1], event=p))
    c.traces += len(data)
    c.part(part, histories=len(data), calls=sum(len(d['ev']) for d in data), tlc_s=round(t.wall, 1))
def model(c):
    for pc, mp, sl, sh in ((2, 3, 5, 'FALSE'), (2, 2, 4, 'TRUE'), (3, 2, 4, 'FALSE')) + (((2, 4, 6, 'FALSE'), (3, 2, 4, 'TRUE'), (3, 3, 4, 'FALSE')) if c.thorough else ()):
        t = c.tlc('HeapMC', 'CONSTANTS PAGE = %d PCLASS = %d SLOTS = {%s} MAXPAGES = %d SHRINK = %s\nINIT Init\nNEXT Next\nINVARIANT Tiling\nINVARIANT Merged\nCHECK_DEADLOCK FALSE\nSYMMETRY Symm\n' % (2 << pc, pc, ', '.join('s%d' % k for k in range(sl)), mp, sh), heap='12g')
        c.part('model %d/%d/%d/%s' % (pc, mp, sl, sh), states=t.distinct, tlc_s=round(t.wall, 1))
def run(c):
    rng = c.rng
    model(c)
    d = build.scratch('wvh-'); p = os.path.join(d, 'p.c'); o = os.path.join(d, 'p.wasm'); open(p, 'w').write(PROG)
    rc, so, se = c.tool().link([p], o)
    if rc or not os.path.exists(o): c.violation('compile', (so + se).decode(errors='replace')[-300:], PROG); return
    wasm = open(o, 'rb').read()
    cases = []
    # every short history over four sizes: allocations fill slots in order, frees choose any slot
    def grow(ops, livec, nxt, depth, sizes):
        if depth == 0: cases.append((ops + [('v', 0, 0, 0)], 40)); return
        for z in sizes: grow(ops + [('m', nxt, z, 0)], livec + [nxt], nxt + 1, depth - 1, sizes)
        for s in livec: grow(ops + [('f', s, 0, 0)], [x for x in livec if x != s], nxt, depth - 1, sizes)
    grow([], [], 0, 4, (16, 17, 3000, 40000)); grow([], [], 0, 4, (32752, 32753, 65520, 65521))
    if c.thorough: grow([], [], 0, 6, (16, 17, 3000, 40000))
    # fill with one size, free in some order, refill with another
    for z, w in itertools.product((0, 16, 17, 48, 100, 1000, 4080, 16000, 32752, 32753, 65520), repeat=2):
        n = 50
        o = [('m', s, z, 0) for s in range(n)]; q = list(range(n))
        rng.choice([lambda: None, q.reverse, lambda: rng.shuffle(q)])()
        o += [('f', s, 0, 0) for s in q] + [('m', s, w, 0) for s in range(n)] + [('v', 0, 0, 0)] + [('f', s, 0, 0) for s in range(n)]
        cases.append((o, 200))
    def hist(n, szs, limit, huge):
        o = []; live = set()
        for _ in range(n):
            x = rng.random(); z = rng.choice(szs)(); s = rng.randrange(40)
            if x < .45:
                if s in live: o.append(('f', s, 0, 0)); live.discard(s)
                else:
                    if rng.random() < .25:
                        m = rng.choice([1, 1, 2, 4, 8, 24]); o.append(('c', s, z // m, m))
                    else: o.append(('m', s, z, 0))
                    live.add(s)
            elif x < .75: o.append(('r', s, z, 0)); (live.add if z else live.discard)(s)
            elif x < .93: o.append(('f', s, 0, 0)); live.discard(s)
            elif x < .95: o.append(('s', 0, rng.randint(1, 3), 0))
            elif x < .97: o.append(('v', 0, 0, 0))
            elif huge:
                z = rng.choice([2**32 - 1, 2**31, 2**31 - 16, 2**31 - 15, 2**31 - 1, 2**32 - 16, 2**30, 2**30 - 16])
                if rng.random() < .3: o.append(('c', s if s not in live else 41, *rng.choice([(2**16, 2**16), (2**31, 2), (2**32 - 1, 2**32 - 1), (65537, 65535), (2**20, 2**12)])))
                else: o.append((rng.choice('mr') if s in live else 'm', s if s not in live else s, z, 0))
                if o[-1][0] == 'm' and s in live: o[-1] = ('r', s, z, 0)
        return o + [('v', 0, 0, 0)], limit
    small = [lambda: rng.randint(0, 64), lambda: rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49]), lambda: rng.randint(0, 600)]
    mid = [lambda: rng.randint(0, 5000), lambda: 2**rng.randint(4, 15) - rng.choice([15, 16, 17, 1, 0, 8])]
    page = [lambda: 65520 + rng.choice([0, 0, 1, -1, 16]), lambda: rng.randint(20000, 70000)]
    large = [lambda: rng.randint(60000, 2000000), lambda: 2**rng.randint(16, 23) - rng.choice([15, 16, 17, 0])]
    for _ in range(c.n(150, 1500)):
        s = rng.choice([small, small + mid, small + mid + page, mid + page, page + large, small + mid + page + large])
        big = s[-1] in large
        cases.append(hist(rng.choice([40, 100, 300]), s, rng.choice([5, 8, 12, 30, 60]) if rng.random() < .5 else (2000 if big else 300), rng.random() < .5))
    validate(c, wasm, 'histories', cases)
    c.sample(dict(history=cases[-1][0][:20], limit=cases[-1][1]))
if __name__ == '__main__': check.main('H01', run)
