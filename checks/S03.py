"""S03: formatted input and number parsing (spec/Scanf.tla, spec/StrToNum.tla)."""
import re
from wv import check, libcase as L
TECHNIQUE = 'TLA+ transition system of the format interpreter with item automata (Scanf.tla) and of the string-to-number functions (StrToNum.tla); TLC judges recorded calls on generated formats and texts: results, every stored byte, characters left unread'
NOTE = 'all eight scanning functions (strings, bounded strings, streams with several buffer sizes); stored floating-point values are checked only when they are short binary fractions; out-of-range scanf values are undefined and not checked'
DECL = '''
static void *D(int k) { return k < (int)a[3] ? (void*)(A + dst[k]) : NULL; }
static void *args(void) { int k; unsigned char *p = A + (int)a[4]; for (k = 0; k < 10; k = k + 1) { dst[k] = k < (int)a[3] ? (int)*p | (int)p[1] << 8 : 0; V[k].va_voidptr = D(k); p = p + 2; } return NULL; }
static FILE *in(FILE *g) {
  FILE *f; int fd = open("i", O_WRONLY | O_CREAT | O_TRUNC); size_t k = 0;
  while (k < N(1)) { ssize_t n = write(fd, (void*)(S(0) + k), N(1) - k); if (n <= 0) _exit(93); k = k + (size_t)n; } close(fd);
  if (g != NULL) f = freopen("i", "r", g); else f = fopen("i", "r");
  if (f == NULL) _exit(92);
  if (a[5] == 1ULL) setvbuf(f, NULL, _IONBF, 0); if (a[5] == 2ULL) setvbuf(f, NULL, _IOFBF, 9);
  return f;
}
static void out(int k, FILE *f) { int n = 0; r((long long)k); r((long long)errno); if (f != NULL) { while (fgetc(f) != EOF) n = n + 1; r((long long)n); if (f != stdin) fclose(f); } }
'''
DECL = 'static va_arg_t V[16]; static int dst[10];\n' + DECL
DS = ', '.join('D(%d)' % k for k in range(10))
F = [('vsscanf', 'args(); errno = 55; k = vsscanf(S(0), S(2), &V[0]); out(k, NULL);'),
     ('vsnscanf', 'args(); errno = 55; k = vsnscanf(S(0), N(1), S(2), &V[0]); out(k, NULL);'),
     ('vfscanf', 'FILE *f; args(); f = in(NULL); errno = 55; k = vfscanf(f, S(2), &V[0]); out(k, f);'),
     ('vscanf', 'args(); in(stdin); errno = 55; k = vscanf(S(2), &V[0]); out(k, stdin);'),
     ('sscanf', 'args(); errno = 55; k = sscanf(S(0), S(2), %s); out(k, NULL);' % DS),
     ('snscanf', 'args(); errno = 55; k = snscanf(S(0), N(1), S(2), %s); out(k, NULL);' % DS),
     ('fscanf', 'FILE *f; args(); f = in(NULL); errno = 55; k = fscanf(f, S(2), %s); out(k, f);' % DS),
     ('scanf', 'args(); in(stdin); errno = 55; k = scanf(S(2), %s); out(k, stdin);' % DS),
     ('strtod', 'double x, y; char *e; unsigned long long u; x = strtod(S(0), &e); y = atof(S(0)); memcpy((void*)&u, (void*)&x, 8); for (k = 0; k < 8; k = k + 1) { r((long long)(u & 255ULL)); u = u >> 8ULL; } rp((void*)e); r((long long)(x == y && strtod(S(0), NULL) == x));')]
F = [(n, 'int k = 0; ' + b) for n, b in F]
STRF = [(n, 'char *e; %s x; errno = 0; x = %s(S(0), a[2] == 1ULL ? &e : NULL, I(1)); ru((unsigned long long)x); rp(a[2] == 1ULL ? (void*)e : NULL); r((long long)errno);' % (t, n))
        for n, t in (('strtol', 'long'), ('strtoul', 'unsigned long'), ('strtoll', 'long long'), ('strtoull', 'unsigned long long'))] + \
       [(n, '%s x = %s(S(0)); r((long long)x); r(-1LL); r(0LL);' % (t, n)) for n, t in (('atoi', 'int'), ('atol', 'long'), ('atoll', 'long long'))]
LEN = {'hh': 1, 'h': 2, '': 4, 'l': 4, 'll': 8, 'j': 8, 'z': 4, 't': 4}

class Gen:
    def __init__(self, rng): self.rng = rng
    def ws(self): return ''.join(self.rng.choice(' \t\n\v\f\r') for _ in range(self.rng.choice([0, 0, 1, 1, 2, 5])))
    def inttext(self, conv='d', size=4, signed=True):
        rng = self.rng; b = 8 * size
        v = rng.choice([0, 1, 5, 7, 8, 9, 10, 42, 100, 2**(b - 1) - 1, 2**(b - 1), 2**b - 1, rng.randrange(1 << rng.randint(1, b)), rng.randrange(1000)])
        if conv in 'du' : t = str(v)
        elif conv == 'o': t = '%o' % v
        elif conv in 'xXp': t = rng.choice(['%x', '%X', '0x%x', '0X%X', '0x0%x', '0%x']) % v
        else: t = rng.choice(['%d' % v, '0%o' % v, '0x%x' % v, '0X%X' % v])
        if rng.random() < .12: t = ('0x' if t[:2].lower() == '0x' else '') + '0' * rng.choice([1, 2, 7, 30, 45]) + (t[2:] if t[:2].lower() == '0x' else t)
        return rng.choice(['', '', '', '-', '+']) + t
    def flttext(self):
        rng = self.rng
        x = rng.choice(['0', '1', '2.5', '.5', '5.', '0.125', '100', '1e3', '1.5E2', '12.75e-1', '-0', '0x1p3', '0x1.8p1', '0X.8P+4', '0xff', 'inf', 'INFINITY', 'nan', 'NaN(ab1_)', '1e+2', '3e-2', '00012.50', '1024.0625', '16777215', '0.0000', '25e-2', '65536e0', '7.5000000',
                        '0x10.4p-2', '0x%x.%xp%d' % (rng.randrange(4096), rng.randrange(256), rng.randint(-900, 900)), '0x1p%d' % rng.randint(-99, 99), '0x0.0p0', '1' + '0' * rng.randint(0, 40) + '.5', '0.' + '0' * rng.randint(0, 50) + '1', '%d.%d' % (rng.randrange(10**rng.randint(1, 7)), rng.choice([0, 5, 25, 75, 125, 375, rng.randrange(1000)]))])
        return rng.choice(['', '', '-', '+']) + x
    def junk(self):
        rng = self.rng
        return ''.join(rng.choice(['a', 'b', 'z', '-', '+', '.', '0', '1', '9', 'x', 'e', ' ', '\n', '%', ',', ']', '^', 'F', '8', 'i', 'n', 'p', '\x80', '\xff', '(', ')']) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
    def item(self):
        """-> (format, matching text, dest size or None)"""
        rng = self.rng; conv = rng.choice('ddiuoxXxsscc[[nnpfeagG')
        sup = rng.random() < .15 and conv != 'n'
        ln, size = '', 4
        if conv in 'diuoxXn': ln = rng.choice(['', '', '', 'hh', 'h', 'l', 'll', 'j', 'z', 't']); size = LEN[ln]
        if conv in 'feagG': ln = rng.choice(['l', 'l', '']); size = 8 if ln else 4
        w = '' if rng.random() < .6 or conv == 'n' else str(rng.choice([1, 2, 3, 4, 5, 8, 12, 40]))
        if conv in 's[' and not w and rng.random() < .5: w = str(rng.choice([1, 3, 10, 60]))
        if conv in 'diuoxXp': text = self.inttext(conv, size); dst = size if conv != 'p' else 4
        elif conv in 'feagG': text = self.flttext(); dst = size
        elif conv == 's': text = ''.join(rng.choice(['a', 'Z', '0', '%', '\xe9', '\xff', '-']) for _ in range(rng.randint(1, 12))); dst = 'str'
        elif conv == 'c': n = int(w or '1'); text = ''.join(rng.choice(' \nab0\xff\x80') for _ in range(n if rng.random() < .9 else rng.randint(0, n))); dst = n
        elif conv == '[':
            body = rng.choice(['abc', '^abc', ']', '^]', ']a', '^]x', 'a-c', '^a-c', 'a-', '-a', '^-a', '0-9a-f', 'a-c-e'[:3], ' ', '^\n', '^ ', '-', '\x80-\xff', '^\xff', '%', '^%', '+--', 'z-a'[:1], '0-9', '^0-9'])
            conv = '[%s]' % body; text = ''.join(rng.choice(['a', 'b', 'c', '-', ']', '0', '9', 'f', ' ', '\n', '\xff', '\x80', '%', 'x', '^', '.']) for _ in range(rng.randint(0, 8))); dst = 'str'
        else: text = ''; dst = size
        return '%' + ('*' if sup else '') + w + ln + conv, text, None if sup else dst
    def case(self):
        rng = self.rng; f, t, d = '', '', []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            if rng.random() < .25:
                lit = rng.choice([',', 'a', ' ', ' , ', 'ab', '%%', ' %%', '\n', '-', '\xe9', '\xff', 'x1'])
                f += lit; t += self.ws() + lit.replace('%%', '%').strip(' \n') + self.ws() if rng.random() < .9 else self.junk()
                continue
            if rng.random() < .3: f += rng.choice([' ', '\t', '\n \v'])
            q, x, dst = self.item()
            f += q; t += (self.ws() if q[-1] != 'c' and ']' not in q or rng.random() < .2 else '') + (x if rng.random() < .85 else self.junk())
            if rng.random() < .3: t += rng.choice([' ', ' ', ',', 'x', '.', '0', 'e', '-'])
            if dst is not None: d.append(dst)
        if rng.random() < .5: f += '%n'; d.append(4)
        if rng.random() < .2: t += self.junk()
        if rng.random() < .15: t = t[:rng.randint(0, len(t))]
        return f.encode('latin1'), t.encode('latin1'), d

def run(c):
    rng = c.rng; g = Gen(rng); cases = []; args = {}
    inc = '#include <stdio.h>\n#include <string.h>\n#include <stdarg.h>\n#include <errno.h>\n#include <fcntl.h>\n'
    drv = L.Driver(F, inc, DECL, infd=60)
    def add(fn, f, t, d):
        # arena: destinations, destination table, and format and text in either order at the end of memory
        if len(d) > 10: return
        mem = bytearray(); ds = []
        for x in d:
            mem += b'\xab' * 3; ds.append(len(mem)); mem += b'\xcd' * ((len(t) + 1) if x == 'str' else x)
        mem += b'\xab' * 3; tab = len(mem); mem += bytes(20)
        for k, x in enumerate(ds): mem[tab + 2 * k:tab + 2 * k + 2] = x.to_bytes(2, 'little')
        stream = fn in ('fscanf', 'vfscanf', 'scanf', 'vscanf'); lim = len(t)
        if not stream and '\0'.encode() in t: return
        if rng.random() < .5: fp = len(mem); mem += f + b'\0'; tp = len(mem); term = not ('snscanf' in fn and rng.random() < .7); mem += t + b'\0' * term
        else: tp = len(mem); term = True; mem += t + b'\0'; fp = len(mem); mem += f + b'\0'
        if 'snscanf' in fn:
            lim = rng.choice([len(t), rng.randint(0, len(t)), len(t)])
            if term and rng.random() < .3: lim = len(t) + 1
        x = (fn, [tp, lim, fp, len(d), tab, rng.randrange(3)], bytes(mem)); cases.append(x); args[id(x)] = ds
    FN = ['vsscanf', 'vsnscanf', 'vfscanf', 'vscanf', 'sscanf', 'snscanf', 'fscanf', 'scanf']
    for _ in range(c.n(9000, 90000)): add(rng.choice(FN), *g.case())
    # systematic: every conversion on every short text over its significant characters
    import itertools
    for f, chars, d in (('%d', '-+019a ', 4), ('%i', '-0x18f ', 4), ('%x', '-0xfg ', 4), ('%2i', '0x7-', 4), ('%3x', '0x7-', 4), ('%o', '0178-', 4), ('%u', '+0-9 ', 4), ('%lf', '0.e-x ', 8), ('%lf', '1.p+0x', 8), ('%3lf', '1.e-', 8), ('%lf', 'inafy', 8), ('%s', 'a \n', 'str'), ('%[a]', 'ab ', 'str'), ('%[^a]', 'ab ', 'str'), ('%2c', 'a b', 2), (' %c', 'a ', 1), ('a%%b%c', 'a%b ', 1)):
        for n in range(0, c.n(4, 6)):
            for t in itertools.product(chars, repeat=n):
                t = ''.join(t)
                add(rng.choice(FN), (f + '%n').encode(), t.encode(), [d, 4])
                if c.thorough or rng.random() < .3: add(rng.choice(['fscanf', 'scanf', 'vfscanf']), f.encode(), t.encode(), [d])
    for t in itertools.product('ab\0\xff', repeat=3): add('fscanf', b'%[^b]%n%c', ''.join(t).encode('latin1'), ['str', 4, 1])
    # prefixes of infinity, nan(...) with every width
    for word in ('infinity', 'INFINITE', 'nan', 'nan(12)', 'nan(', 'nanx', '-inf', '+infin'):
        for w in ['', *map(str, range(1, 10))]: add(rng.choice(FN), ('%' + w + 'lf%n').encode(), (word + ' z').encode(), [8, 4])
    for t in list({g.flttext() + g.junk() for _ in range(c.n(800, 8000))}) + [''.join(x) for n in range(5) for x in itertools.product('1.e-x', repeat=n)]:
        b = g.ws().encode() + t.encode('latin1')
        if b'\0' in b: continue
        x = ('strtod', [0], b + b'\0'); cases.append(x); args[id(x)] = []
    L.validate(c, 'scanf', 'Scanf', drv, cases, extra=lambda x: dict(args=args[id(x)]))
    c.sample(cases[17])
    cases = []
    for _ in range(c.n(6000, 60000)):
        fn = rng.choice(['strtol', 'strtoul', 'strtoll', 'strtoull', 'atoi', 'atol', 'atoll']); base = rng.choice([0, 0, 10, 10, 16, 16, 8, 2, 3, 7, 35, 36, rng.randint(2, 36)])
        if fn[0] == 'a': base = 10
        b = 64 if fn.endswith('ll') or fn == 'atoll' else 32
        bb = base if 2 <= base <= 36 else 10
        v = rng.choice([0, 1, 9, 2**(b - 1) - 1, 2**(b - 1), 2**(b - 1) + 1, 2**b - 1, 2**b, 2**b + 1, 2**b * bb, (2**b) // bb, 2**b // bb + 1, 2**(b - 1) // bb, rng.randrange(2**b), rng.randrange(1 << rng.randint(1, b + 3))])
        ds = ''
        while v: ds = rng.choice([str.lower, str.upper])('0123456789abcdefghijklmnopqrstuvwxyz'[v % bb]) + ds; v //= bb
        t = g.ws() + rng.choice(['', '', '-', '+', '+-', '-+', '- ']) + rng.choice(['', '', '', '0', '0x', '0X', '00', '0x0', 'x']) + (ds or '0') + rng.choice(['', '', ' ', 'g', 'z', '8', '.', '-', '\xff', '\0'])
        if rng.random() < .08: t = rng.choice(['', ' ', '-', '+', '0x', '0xg', '-0x', '0', '00', '0x-1', ' \t\n\v\f\r5', 'z', '-z', '\xa05', '0b1', '0X1'])
        cases.append((fn, [0, base, rng.choice([1, 1, 0]) if fn[0] != 'a' else 0], t.encode('latin1') + b'\0'))
    for base in (0, 2, 8, 10, 16, 36):
        for n in range(c.n(5, 6)):
            for t in itertools.product('-01xg', repeat=n): cases.append((rng.choice(['strtol', 'strtoul', 'strtoll', 'strtoull']), [0, base, 1], ''.join(t).encode() + b'\0'))
    L.validate(c, 'strtol', 'StrToNum', L.Driver(STRF, inc), cases, enc=L.bytes8, constants='CONSTANT ERANGE = 68\nCONSTANT EINVAL = 28\n')
    c.sample(cases[17])
if __name__ == '__main__': check.main('S03', run)
