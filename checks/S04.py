"""S04: string and memory functions, character classes (spec/Strings.tla)."""
import itertools
from wv import check, libcase as L
TECHNIQUE = 'TLA+ specification of every string/memory function as a transition of a byte memory (Strings.tla), TLC judging recorded calls of the compiled library on exhaustive small and random arenas that end at the end of memory'
NOTE = 'exhaustive for short strings over a 4-letter alphabet, all overlaps of small memmoves, all character codes; random arenas up to 300 bytes; reads past the arena end trap'

F = [
 ('memchr', 'rp(memchr((void*)S(0), I(1), N(2)));'),
 ('memcmp', 'r((long long)memcmp((void*)S(0), (void*)S(1), N(2)));'),
 ('memcpy', 'rp(memcpy((void*)S(0), (void*)S(1), N(2)));'),
 ('memmove', 'rp(memmove((void*)S(0), (void*)S(1), N(2)));'),
 ('memset', 'rp(memset((void*)S(0), I(1), N(2)));'),
 ('bzero', 'bzero((void*)S(0), N(1));'),
 ('memswap', 'memswap((void*)S(0), (void*)S(1), N(2));'),
 ('memccpy', 'rp(memccpy((void*)S(0), (void*)S(1), I(2), N(3)));'),
 ('memmem', 'rp(memmem((void*)S(0), N(1), (void*)S(2), N(3)));'),
 ('strlen', 'ru((unsigned long long)strlen(S(0)));'),
 ('strnlen', 'ru((unsigned long long)strnlen(S(0), N(1)));'),
 ('strcpy', 'rp((void*)strcpy(S(0), S(1)));'),
 ('strcat', 'rp((void*)strcat(S(0), S(1)));'),
 ('strncpy', 'rp((void*)strncpy(S(0), S(1), N(2)));'),
 ('strncat', 'rp((void*)strncat(S(0), S(1), N(2)));'),
 ('strcmp', 'r((long long)strcmp(S(0), S(1)));'),
 ('strcoll', 'r((long long)strcoll(S(0), S(1)));'),
 ('strncmp', 'r((long long)strncmp(S(0), S(1), N(2)));'),
 ('strcasecmp', 'r((long long)strcasecmp(S(0), S(1)));'),
 ('strncasecmp', 'r((long long)strncasecmp(S(0), S(1), N(2)));'),
 ('strchr', 'rp((void*)strchr(S(0), I(1)));'),
 ('strrchr', 'rp((void*)strrchr(S(0), I(1)));'),
 ('strspn', 'ru((unsigned long long)strspn(S(0), S(1)));'),
 ('strcspn', 'ru((unsigned long long)strcspn(S(0), S(1)));'),
 ('strpbrk', 'rp((void*)strpbrk(S(0), S(1)));'),
 ('strstr', 'rp((void*)strstr(S(0), S(1)));'),
 ('strxfrm', 'ru((unsigned long long)strxfrm(S(0), S(1), N(2)));'),
 ('strdup', 'char *p = strdup(S(0)); cpy_(p, strlen(S(0)) + 1);'),
 ('strndup', 'char *p = strndup(S(0), N(1)); cpy_(p, strnlen(S(0), N(1)) + 1);'),
 ('strtok', 'tok_(false);'), ('strtok_r', 'tok_(true);'),
] + [(f, 'r((long long)%s(I(0)));' % f) for f in 'isupper islower isdigit isalpha isalnum isprint isgraph ispunct isspace iscntrl isxdigit isblank isascii tolower toupper'.split()]
DECLS = r'''
/* report a fresh copy; it must not alias the arena, and the heap must survive freeing it */
static void cpy_(char *p, size_t n) {
  size_t k; void *x = malloc(n); void *y = malloc(n); size_t j;
  if (p == NULL) { r(-2LL); return; }
  if ((unsigned char*)p >= A && (unsigned char*)p < E_) r(-3LL);
  for (j = 0; j < n; j = j + 1) { ((unsigned char*)x)[j] = 255; ((unsigned char*)y)[j] = 255; }
  for (k = 0; k < n; k = k + 1) r((long long)(int)((unsigned char*)p)[k]);
  free((void*)p); free(x); free(y);
}
static void tok_(bool re) {
  char *h[2]; int n = I(5); unsigned long long k = a[4];
  h[0] = NULL; h[1] = NULL;
  if (!re) { char z[1]; z[0] = 0; strtok(&z[0], "a"); }
  while (n > 0) {
    int w = (int)(k & 1ULL); char *d = (k & 2ULL) ? S(3) : S(2); char *s = (k & 4ULL) ? S(w) : NULL;
    if (re) rp((void*)strtok_r(s, d, &h[w])); else rp((void*)strtok(s, d));
    k = k >> 3ULL; n = n - 1;
  }
}
'''
def run(c):
    drv = L.Driver(F, '#include <string.h>\n#include <ctype.h>\n', DECLS)
    rng = c.rng; cases = []
    def add(f, args, mem): cases.append((f, args, bytes(mem)))
    G = b'\xfe'
    AB = b'aAb\xe1'
    strs = [bytes(s) for k in range(3) for s in itertools.product(AB, repeat=k)]
    two = 'strcmp strcoll strcasecmp strspn strcspn strpbrk strstr'.split()
    for s, t in itertools.product(strs, strs):
        m = G + s + b'\0' + G + t + b'\0'
        p, q = 1, 3 + len(s)
        for f in two: add(f, [p, q], m)
        n = rng.randint(0, 4)
        for f in ('strncmp', 'strncasecmp'): add(f, [p, q, n], m)
        k = min(len(s), len(t))         # arrays without terminators, second at the end of memory
        add('strncmp', [1, 1 + k, k], G + s[:k] + t[:k]); add('strncasecmp', [1 + k, 1, k], G + s[:k] + t[:k])
        add('memcmp', [1, 1 + k, k], G + s[:k] + t[:k]); add('memcmp', [1 + k, 1, k], G + s[:k] + t[:k])
        add('memcmp', [1, 1 + len(s), min(len(s), n)], G + s + t[:0] + s)
        # destinations with slack
        d = s + b'\0' + bytes([0xfd]) * rng.randint(len(t), len(t) + 3)
        m2 = G + d + G + t + b'\0'
        add('strcat', [1, 2 + len(d)], m2); add('strcpy', [1, 2 + len(d)], m2)
        n2 = rng.randint(0, len(d))
        add('strncpy', [1, 2 + len(d), n2], m2); add('strxfrm', [1, 2 + len(d), n2], m2)
        add('strncat', [1, 2 + len(d), rng.randint(0, len(t) + 2)], m2)
        # destination at the very end of memory
        m3 = t + b'\0' + G + s + b'\0' + b'\xfd' * len(t)
        add('strcat', [len(t) + 2, 0], m3)
        add('strncat', [len(t) + 2, 0, rng.randint(0, len(t) + 2)], m3)
        add('strncat', [len(t) + 2, 0, len(t)], t + G + G + s + b'\0' + b'\xfd' * len(t))
        m4 = t + b'\0' + G + b'\xfd' * (len(t) + 1)
        add('strcpy', [len(t) + 2, 0], m4)
        for n3 in range(len(t) + 2): add('strncpy', [len(t) + 2, 0, n3], m4)
        add('strncpy', [len(t) + 2, 0, len(t)], t + G * 2 + b'\xfd' * len(t)) if t else None
    for s in strs + [bytes(rng.choice(AB) for _ in range(rng.randint(3, 20))) for _ in range(40)]:
        m = G + s + b'\0'
        add('strlen', [1], m); add('strdup', [1], m); add('strlen', [1 + len(s)], m)
        for n in {0, 1, 2, len(s), len(s) + 1, len(s) + 7, 4294967295}: add('strnlen', [1, n], m); 
        for n in {0, 1, 2, len(s), len(s) + 1, len(s) + 7, len(s) + 1000}: add('strndup', [1, n], m)
        for n in range(len(s) + 1): add('strnlen', [1, n], G + s[:n]); add('strndup', [1, n], G + s[:n])
        for ch in [0, 97, 65, 98, 0xe1, -31, 256 + 97, 122]:
            add('strchr', [1, ch], m); add('strrchr', [1, ch], m)
            for n in {0, 1, len(s)}: add('memchr', [1, ch, min(n, len(s))], G + s)
            add('memchr', [1, ch, len(s) + 1], m)
    # searches with repetitive needles
    hs = [bytes(s) for k in range(6) for s in itertools.product(b'ab', repeat=k)]
    ns = [bytes(s) for k in range(4) for s in itertools.product(b'ab', repeat=k)]
    for h, x in itertools.product(hs, ns):
        add('strstr', [1, 2 + len(h)], G + h + b'\0' + x + b'\0')
        add('memmem', [len(x), len(h), 0, len(x)], x + h)
    for _ in range(c.n(300, 6000)):
        h = bytes(rng.choice(b'ab' if rng.random() < .7 else b'ab\0\xff') for _ in range(rng.randint(0, 40)))
        k = rng.randint(0, 8)
        x = h[(o := rng.randint(0, max(0, len(h) - k))):o + k] if rng.random() < .6 else bytes(rng.choice(b'ab') for _ in range(k))
        if rng.random() < .3 and x: x = x[:-1] + bytes([x[-1] ^ 1])
        add('memmem', [len(x), len(h), 0, len(x)], x + h); add('memmem', [0, len(h), len(h), len(x)], h + x)
        h2, x2 = h.replace(b'\0', b'c'), x.replace(b'\0', b'c')
        add('strstr', [0, len(h2) + 1], h2 + b'\0' + x2 + b'\0')
    # copies, all overlaps
    W = 9; base = bytes(range(1, W + 1))
    for n in range(W + 1):
        for d in range(W - n + 1):
            for s in range(W - n + 1):
                add('memmove', [d, s, n], base)
                if abs(d - s) >= n or n == 0:
                    add('memcpy', [d, s, n], base); add('memswap', [d, s, n], base)
                    ch = rng.choice([s + 1, s + n, s + 2, 200, 256 + s + 1])
                    add('memccpy', [d, s, ch, n], base)
            add('memset', [d, rng.choice([0, 7, 255, -1, 300]), n], base); add('bzero', [d, n], base)
    for _ in range(c.n(400, 8000)):
        w = rng.choice([16, 33, 64, 100, 300]); m = bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(w))
        n = rng.randint(0, w); d = rng.randint(0, w - n); s = rng.randint(0, w - n)
        add('memmove', [d, s, n], m); add('memset', [d, rng.randint(-300, 300), n], m); add('bzero', [d, n], m)
        ch = rng.choice(list(m) + [-1, 511, 77])
        add('memchr', [d, ch, n], m); add('memchr', [w - n, ch, n], m)
        n = rng.randint(0, w // 2); d, s = rng.choice([(0, w - n), (w - n, 0), (rng.randint(0, w // 2 - n), rng.randint(w // 2, w - n))])
        add('memcpy', [d, s, n], m); add('memswap', [d, s, n], m); add('memccpy', [d, s, ch, n], m)
        k = rng.randint(0, n); m2 = bytearray(m); m2[d:d + n] = m2[s:s + n]
        if n and k < n: m2[d + k] ^= rng.choice([1, 128, 255])
        add('memcmp', [d, s, n], bytes(m2)); add('memcmp', [s, d, n], bytes(m2))
    for _ in range(c.n(400, 8000)):     # longer strings sharing prefixes, any alignment
        al = rng.choice([b'ab', b'aAbBzZ@[`{', bytes(range(1, 256))])
        s = bytes(rng.choice(al) for _ in range(rng.randint(0, 30)))
        t = bytearray(s[:rng.randint(0, len(s))])
        if rng.random() < .5: t += bytes(rng.choice(al) for _ in range(rng.randint(0, 6)))
        if rng.random() < .5: t = bytearray(bytes(t).swapcase())
        t = bytes(t); pad = G * rng.randint(0, 7)
        m = pad + s + b'\0' + G * rng.randint(0, 3) + t + b'\0'; p = len(pad); q = len(m) - len(t) - 1
        for f in two: add(f, [p, q], m); add(f, [q, p], m)
        n = rng.choice([0, 1, len(t), len(t) + 1, len(s), 40, 4294967295])
        for f in ('strncmp', 'strncasecmp'): add(f, [p, q, n], m); add(f, [q, p, n], m)
        e = rng.randint(0, 5); m = pad + t + b'\0' + s + b'\0' + b'\xfd' * (len(t) + e); d = len(pad) + len(t) + 1
        for f in ('strcpy', 'strcat'): add(f, [d, p], m)
        for f in ('strncpy', 'strxfrm'): add(f, [d, p, rng.randint(0, len(s) + 1 + len(t) + e)], m)
        add('strncat', [d, p, rng.randint(0, len(t) + 3)], m)
    # tokens
    for _ in range(c.n(1500, 20000)):
        def w(): return bytes(rng.choice(b'aab,;') for _ in range(rng.randint(0, 9)))
        s, t = w(), w(); d1 = rng.choice([b',', b',;', b'', b'a', b';']); d2 = rng.choice([b';', b',', b'b,'])
        m = s + b'\0' + t + b'\0' + d1 + b'\0' + d2 + b'\0'
        a = [0, len(s) + 1, len(s) + len(t) + 2, len(s) + len(t) + len(d1) + 3]
        n = rng.randint(1, 8); sh = rng.random() < .5
        prog, seen = 0, set()
        for k in range(n):
            x = rng.choice([0, 1]); z = rng.choice([0, 0, 0, 2])
            st = 4 if (not seen if sh else x not in seen) or rng.random() < .1 else 0
            seen.add(x); prog |= (x | z | st) << (3 * k)
        add('strtok' if sh else 'strtok_r', a + [prog, n], m)
    for f, _ in F[-15:]:
        for ch in range(-1, 256): add(f, [ch], b'')
    L.validate(c, 'calls', 'Strings', drv, cases, encarg=lambda v: min(v, 2**30))
    c.sample(cases[100]); c.sample(cases[-5000])
if __name__ == '__main__': check.main('S04', run)
