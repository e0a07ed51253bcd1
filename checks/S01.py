"""S01: streams (spec/Stream.tla, StreamTrace.tla, StreamMC.tla)."""
import itertools, os, random, struct
from wv import check, host, build, lang
TECHNIQUE = 'TLA+ model of a stream as a byte sequence with one position and a faulty host (Stream.tla), model-checked against the buffering scheme (StreamMC.tla); recorded histories of stream calls with injected short and failing host transfers validated by TLC (StreamTrace.tla)'
NOTE = 'all histories of up to 3 calls over a small alphabet per mode, random histories of up to 60 calls on up to 3 streams, buffers of 8..1032 bytes, random and single-point host faults; calls the language leaves undefined (switching between reading and writing without repositioning, flushing input) end a history'
PROG = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
static int a_[8];
static FILE *f_[8];
static char nm_[16];
static unsigned char b_[8192];
static unsigned char o_[8192];
static char u0_[96]; static char u1_[96]; static char u2_[96]; static char u3_[96]; static char u4_[96]; static char u5_[96]; static char u6_[96];
static char *ub_[8]; static int us_[8];
static fpos_t ps_[8];
static unsigned char in_[65536]; static int ip_ = 0, in2_ = 0;
static bool rd_(void *q, int n) {
  unsigned char *d = q;
  while (n > 0) {
    if (ip_ == in2_) { in2_ = (int)read(9, (void*)&in_[0], 65536); ip_ = 0; if (in2_ <= 0) return false; }
    *d = in_[ip_]; d = d + 1; ip_ = ip_ + 1; n = n - 1;
  }
  return true;
}
int main(void) {
  int op, s, x, y, n, ret, nd, i, bad; FILE *fp; int *w = (int*)&o_[0]; unsigned char *d = &o_[20]; char *mode;
  f_[1] = stdin; f_[2] = stdout; f_[3] = stderr;
  ub_[0] = &u0_[0]; ub_[1] = &u1_[0]; ub_[2] = &u2_[0]; ub_[3] = &u3_[0]; ub_[4] = &u4_[0]; ub_[5] = &u5_[0]; ub_[6] = &u6_[0];
  while (rd_((void*)&a_[0], 20)) {
    op = a_[0]; s = a_[1]; x = a_[2]; y = a_[3]; n = a_[4];
    if (n > 0) rd_((void*)&b_[0], n);
    b_[n] = 0; fp = f_[s]; ret = 0; nd = 0; bad = 0; errno = 0;
    if (fp == NULL && op != 'o' && op != 'F') op = 0;
    switch (op) {
      case 0: break;
      case 'o': case 'O':
        nm_[0] = 'f'; nm_[1] = (char)('0' + x); nm_[2] = 0; mode = (char*)&b_[0];
        if (op == 'o') fp = fopen(&nm_[0], mode); else fp = freopen(&nm_[0], mode, fp);
        f_[s] = fp; us_[s] = 0; ret = (int)(fp != NULL); break;
      case 'c': ret = fclose(fp); f_[s] = NULL; fp = NULL; break;
      case 'g': ret = fgetc(fp); break;
      case 'G': ret = getc(fp); break;
      case 'p': ret = fputc(x, fp); break;
      case 'Q': ret = putc(x, fp); if (ret != -1) ret = ret & 255; break;
      case 'r': for (i = 0; i < x * y; i = i + 1) d[i] = 238; ret = (int)fread((void*)d, (size_t)x, (size_t)y, fp); nd = ret * x; break;
      case 's': for (i = 0; i < x; i = i + 1) d[i] = 238; nd = x; if (fgets((char*)d, x, fp) != NULL) ret = 1; else ret = 0; break;
      case 'S': ret = fputs((char*)&b_[0], fp); break;
      case 'P': ret = fprintf(fp, "%s", &b_[0]); break;
      case 'U': ret = puts((char*)&b_[0]); break;
      case 'w': ret = (int)fwrite((void*)&b_[0], (size_t)x, (size_t)y, fp); break;
      case 'u': ret = ungetc(x, fp); break;
      case 'k': ret = fseek(fp, (long)x, y); break;
      case 't': ret = (int)ftell(fp); break;
      case 'n': ret = fgetpos(fp, &ps_[s]); if (ret == 0) ret = (int)ps_[s]; else ret = -1; break;
      case 'm': ps_[s] = (fpos_t)x; ret = fsetpos(fp, &ps_[s]); if (ret != 0) ret = -1; break;
      case 'R': rewind(fp); break;
      case 'f': ret = fflush(fp); break;
      case 'F': ret = fflush(NULL); break;
      case 'e': clearerr(fp); break;
      case 'b': i = x; if (x == 0) i = _IOFBF; if (x == 1) i = _IOLBF; if (x == 2) i = _IONBF; if (x > 2) i = 12345;
        if (n == 1 && y <= 80) { memset((void*)ub_[s], 90, 96); us_[s] = y; ret = setvbuf(fp, ub_[s], i, (size_t)y); }
        else ret = setvbuf(fp, NULL, i, (size_t)y);
        break;
    }
    if (us_[s] > 0) for (i = us_[s]; i < 96; i = i + 1) if ((int)ub_[s][i] != 90) bad = bad + 1;
    if (op == 0) bad = -1;
    w[0] = ret; w[1] = 0; w[2] = 0; w[3] = bad; w[4] = nd;
    if (fp != NULL) { if (feof(fp)) w[1] = 1; if (ferror(fp)) w[2] = 1; }
    write(8, (void*)&o_[0], (size_t)(nd + 20));
  }
  return 0;
}
'''
E = host.E
class SH(host.Host):
    """records what the host did between two reports, per file"""
    def __init__(self, files, stdin, tty, plan, infd_data):
        self.root = host.Node('dir')
        for j, c in enumerate(files):
            if c is not None: self.root.ents[b'f%d' % (j + 4)] = host.Node('file', c)
        super().__init__(preopens=[('.', self.root)], stdin=stdin, tty=(0, 1, 2) if tty else (), log_io=False)
        self.fds[9] = host.Fd(host.Node('file', infd_data)); self.fds[8] = host.Fd(host.Node('file'))
        self.plan = plan; self.reports = []; self.io = {}; self.prev = {f: self.content(f) for f in range(1, len(files) + 4)}; self.nf = len(files) + 3
        self.nfault = 0
    def content(self, f):
        if f == 1: return None
        if f == 2: return bytes(self.out)
        if f == 3: return bytes(self.err)
        n = self.root.ents.get(b'f%d' % f)
        return None if n is None else bytes(n.data)
    def file(self, fd):
        f = self.fds.get(fd & 0xffffffff)
        if f is None: return 0
        k = {'stdin': 1, 'stdout': 2, 'stderr': 3}.get(f.node.kind)
        if k: return k
        for nm, n in self.root.ents.items():
            if n is f.node: return int(nm[1:])
        return 0
    def ent(self, f):
        return self.io.setdefault(f, dict(f=f, n=0, we=0, re=0, se=0, ce=0, oe=0, rd=0, ch=0, c=[]))
    def fault(self, call, fd=None):
        if fd in (8, 9): return None
        f = self.plan(call, fd, self)
        if f: self.nfault += 1
        return f
    def fd_write(self, fd, iv, n, r, off=None):
        if fd == 8:
            data = b''.join(self.rd(a, l) for a, l in self.iovs(iv, n)); self.w32(r, len(data)); self.report(data); return 0
        f = self.file(fd); e = super().fd_write(fd, iv, n, r, off)
        if f:
            x = self.ent(f)
            if e: x['we'] = 1
            else: x['n'] += struct.unpack('<I', self.rd(r, 4))[0]
        return e
    def fd_read(self, fd, iv, n, r, off=None):
        e = super().fd_read(fd, iv, n, r, off); f = self.file(fd)
        if f:
            x = self.ent(f); x['rd'] = 1
            if e: x['re'] = 1
        return e
    def fd_seek(self, fd, off, wh, r):
        e = super().fd_seek(fd, off, wh, r); f = self.file(fd)
        if f and e and e != E['INVAL']: self.ent(f)['se'] = 1
        return e
    def fd_tell(self, fd, r):
        e = super().fd_tell(fd, r); f = self.file(fd)
        if f and e: self.ent(f)['se'] = 1
        return e
    def fd_close(self, fd):
        f = self.file(fd); e = super().fd_close(fd)
        if f and e: self.ent(f)['ce'] = 1
        return e
    def path_open(self, dfd, dfl, p, n, *a):
        f = int(self.rd(p, n)[1:]); e = super().path_open(dfd, dfl, p, n, *a)
        if e: self.ent(f)['oe'] = int(self.faulted)
        return e
    faulted = False
    def snap(self):
        for f in range(1, self.nf + 1):
            c = self.content(f)
            if c != self.prev[f]: x = self.ent(f); x['ch'] = 1; x['c'] = list(c); self.prev[f] = c
        io = [self.io[f] for f in sorted(self.io)]; self.io = {}
        return io
    def report(self, data):
        self.reports.append((data, self.snap()))
def noplan(call, fd, h): return None
def at_plan(call, nth, what):
    cnt = [0]
    def plan(c, fd, h):
        h.faulted = False
        if c != call: return None
        cnt[0] += 1
        if cnt[0] == nth: h.faulted = True; return dict(what)
        return None
    return plan
def rnd_plan(seed, pshort, perr, calls):
    r = random.Random(seed)
    def plan(c, fd, h):
        h.faulted = False
        x = r.random()
        if c in ('fd_read', 'fd_write') and x < pshort: return dict(short=r.randint(1, 12))
        if c in calls and r.random() < perr: h.faulted = True; return dict(errno=E['IO'])
        return None
    return plan
def mkplan(p): return noplan if p is None else at_plan(*p[1:]) if p[0] == 'at' else rnd_plan(*p[1:])
def _run(a):
    out = []
    for wasm, h in a:
        inp = b''.join(struct.pack('<iiiii', ord(o[0]), o[1], o[2], o[3], len(o[4])) + bytes(o[4]) for o in h['ops'])
        hs = SH(h['files'], h['stdin'], h['tty'], mkplan(h['plan']), inp)
        r = host.run(wasm, hs, 300_000_000)
        fin = hs.snap()
        out.append((r.status, r.code, (r.msg or '')[-200:], hs.reports, fin, hs.nfault))
    return out
KEYS = ('f', 'n', 'we', 're', 'se', 'ce', 'oe', 'rd', 'ch', 'c')
def validate(c, wasm, part, hs):
    jobs = [[(wasm, h) for h in hs[i:i + 40]] for i in range(0, len(hs), 40)]
    obs = [x for r in lang.pmap(_run, jobs) for x in r]
    data, ix = [], []; nf = 0
    for j, (h, (st, code, msg, rep, fin, nfault)) in enumerate(zip(hs, obs)):
        nf += nfault
        ev = []
        for o, (d, io) in zip(h['ops'], rep):
            ret, eof, err, bad, nd = struct.unpack('<iiiii', d[:20])
            if bad == -1: continue          # stream not open
            ev.append(dict(op=o[0], s=o[1], x=o[2], y=o[3], b=list(o[4]), ret=ret, eof=eof, err=err, bad=bad, d=list(d[20:20 + nd]), io=io))
        if st != 'exit' or code != 0 or len(rep) != len(h['ops']):
            c.violation('%s:trap' % part, 'program fails (%s %s) after %d calls, next %s' % (st, msg, len(rep), h['ops'][len(rep):len(rep) + 1]), dict(history=h, msg=msg)); continue
        ev.append(dict(op='x', s=0, x=0, y=0, b=[], ret=0, eof=0, err=0, bad=0, d=[], io=fin))
        files = [list(h['stdin']), [], []] + [[-1] if x is None else list(x) for x in h['files']]
        data.append(dict(files=files, tty=h['tty'], ev=ev)); ix.append(j)
    t = c.tlc('StreamTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=data), heap='12g')
    und = 0
    for p in t.prints:
        h = hs[ix[p['i'] - 1]]; k = p['k']; e = data[p['i'] - 1]['ev'][k - 1]
        if p['undefined']: und += 1; continue
        ops = [(x['op'], x['s'], x['x'], x['y'], bytes(x['b'])) for x in data[p['i'] - 1]['ev'][:k]]
        c.violation('%s:%s' % (part, ' '.join('%s%d(%d,%d,%s)' % (o[0], o[1], o[2], o[3], bytes(o[4][:20])) for o in ops)[-300:]),
                    'call %d %s: ret=%s eof=%s err=%s bad=%s d=%s io=%s; stream was %s; history %s plan %s' % (k, ops[-1], e['ret'], e['eof'], e['err'], e['bad'], e['d'][:40], [{q: w for q, w in x.items() if w and q != 'c'} for x in e['io']], str(p['st'])[:300], ops[-7:-1], h['plan']), dict(history={**h, 'ops': ops}, event=e))
    c.traces += len(data)
    c.part(part, histories=len(data), calls=sum(len(d['ev']) for d in data), host_faults=nf, ended_undefined=und, tlc_s=round(t.wall, 1))
    return und
def B(r, n, text=False):
    return bytes(r.choice(b'abcdefgh\n\n\xff\xfe' if text else b'abc\n\n\xff\0\x80q') for _ in range(n))
class Gen:
    """random histories that stay (mostly) defined"""
    def __init__(self, r, sizes): self.r, self.sz = r, sizes
    def hist(self, n, modes, nstreams=1, faults=None, bufs=None, std=False, text_only=False):
        r = self.r; ops = []; slots = {}; files = [None if r.random() < .25 else B(r, r.choice(self.sz)) for _ in range(4)]
        lens = {4 + i: len(f or b'') for i, f in enumerate(files)}
        if std: slots.update({1: dict(f=1, m='r', last='', fresh=1), 2: dict(f=2, m='w', last='', fresh=1), 3: dict(f=3, m='w', last='', fresh=1)})
        free = list(range(4, 8)); r.shuffle(free)
        def add(*o): ops.append(o + ((b'',) if len(o) == 4 else ()))
        def opn(slot, f, op='o'):
            m = r.choice(modes)
            if files[f - 4] is None and m[0] == 'r' and r.random() < .9: m = 'w+' if '+' in m else 'a'
            if 'x' in m and r.random() < .3: m = 'w'
            add(op, slot, f, 0, m.encode()); ok = not (files[f - 4] is None and m[0] == 'r') and not ('x' in m and m[0] != 'r' and files[f - 4] is not None)
            if ok:
                files_now[f] = True; slots[slot] = dict(f=f, m=m, last='', fresh=1)
                if bufs and r.random() < .8:
                    k, z, own = r.choice(bufs); add('b', slot, k, z, b'u' if own else b'')
            return ok
        files_now = {}
        import copy
        orig = list(files)
        for s in range(4, 4 + nstreams):
            f = free.pop(); opn(s, f)
            if s in slots: files[f - 4] = files[f - 4] or b''
        while len(ops) < n:
            if not slots: break
            s = r.choice(list(slots)); z = slots[s]; m = z['m']; rd = 'r' in m or '+' in m; wr = m[0] in 'wa' or '+' in m
            x = r.random(); size = r.choice(self.sz)
            if x < .03 and std and r.random() < .3: add('F', 0, 0, 0)
            elif x < .05 and not (std and s < 4):
                add('c', s, 0, 0); free.append(z['f']) if z['f'] > 3 else None; del slots[s]; f = free.pop(0); opn(s, f)
            elif x < .065 and free and (std or s > 3):
                f = free.pop(0); old = z['f']; del slots[s]; ok = opn(s, f, 'O')
                if not ok: break
                if old > 3: free.append(old)
            elif x < .25:
                if z['f'] <= 3 and r.random() < .7: continue
                if z.get('pb'): add('k', s, r.randint(0, 30), 0); z.update(last='', pb=0)
                else:
                    q = r.random()
                    if q < .35: add('k', s, r.choice([0, 1, 2, 3, 5, 9, 20, 40, size, -1]), 0)
                    elif q < .6: add('k', s, r.choice([0, 0, 1, -1, 2, -2, 4, -5, size, -size]), 1)
                    elif q < .75: add('k', s, r.choice([0, -1, -3, 2, -size]), 2)
                    elif q < .85: add('m', s, r.randint(0, 30), 0)
                    elif q < .92: add('R', s, 0, 0)
                    elif q < .96: add('t', s, 0, 0); z['fresh'] = 0; continue
                    else: add('n', s, 0, 0); z['fresh'] = 0; continue
                    if not (faults or z['f'] <= 3) and ops[-1][2] >= 0: z.update(last='')
                    else: z.update(last='?' if rd and wr else z['last'])
            elif x < .33:
                if z['last'] == 'r' or not wr: continue
                add('f', s, 0, 0)
                if not faults: z['last'] = ''
            elif x < .36: add('e', s, 0, 0)
            elif x < .42: add(r.choice('tn'), s, 0, 0) if not z.get('pb') else None
            elif rd and z['last'] != 'w' and (not wr or z['last'] == 'r' or r.random() < .5) and z['last'] != '?':
                q = r.random()
                if q < .25: add(r.choice('gG'), s, 0, 0); z['pb'] = 0
                elif q < .4: add('u', s, r.choice([97, 88, 10, 0, 255, 200, -1, 256 + 65]), 0); z['pb'] = 1
                elif q < .7: a = r.choice([1, 1, 1, 2, 3, 7]); add('r', s, a, size // a); z['pb'] = 0 if size else z.get('pb')
                else: add('s', s, r.choice([1, 2, 3, 5, 10, 60, max(1, size)]), 0)
                z.update(last='r', fresh=0)
                if q >= .4 and q < .7 and wr and size >= 60 and r.random() < .3: add('r', s, 1, 4000); z['last'] = ''
            elif wr and z['last'] not in ('r', '?'):
                q = r.random()
                if q < .3: add(r.choice('pQp'), s, r.choice([97, 98, 10, 255, 0, 266, -5]), 0)
                elif q < .6: a = r.choice([1, 1, 2, 3, 7]); k = size // a; add('w', s, a, k, B(r, a * k))
                elif q < .85 or faults: add('S', s, 0, 0, B(r, size, True))
                elif s == 2 and std: add('U', s, 0, 0, B(r, size, True))
                else: add('P', s, 0, 0, B(r, size, True))
                z.update(last='w', fresh=0)
            elif not wr and rd and r.random() < .1: add(r.choice('wS'), s, 1, 3, b'xyz')
            elif z['last'] == '?' or rd: add('k', s, r.randint(0, 20), 0); z.update(last='?' if faults else '', pb=0)
        return dict(files=orig, stdin=B(r, r.choice(self.sz)) if std else b'', tty=std and r.random() < .5, ops=ops, plan=faults)
MODES = ['r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'r+b', 'rb+', 'ab', 'wx', 'w+x']
def model(c):
    for kind, cap, ml, mf in [('r', 2, 3, 0), ('w', 2, 3, 1), ('a', 2, 3, 1), ('u', 2, 3, 1)] + ([('r', 3, 3, 0), ('w', 2, 4, 2), ('a', 3, 4, 2), ('u', 1, 3, 2), ('u', 3, 3, 1)] if c.thorough else []):
        t = c.tlc('StreamMC', 'CONSTANTS CAP = %d BYTES = {1, 2} MAXLEN = %d MAXF = %d KIND = "%s"\nINIT Init\nNEXT Next\nINVARIANT Explained\nINVARIANT Mirror\nINVARIANT Due\nCHECK_DEADLOCK FALSE\n' % (cap, ml, mf, kind), heap='12g')
        c.part('model %s %d/%d/%d' % (kind, cap, ml, mf), states=t.distinct, tlc_s=round(t.wall, 1))
def run(c):
    rng = c.rng
    model(c)
    d = build.scratch('wvs-'); p = os.path.join(d, 'p.c'); o = os.path.join(d, 'p.wasm'); open(p, 'w').write(PROG)
    rc, so, se = c.tool().link([p], o)
    if rc or not os.path.exists(o): c.violation('compile', (so + se).decode(errors='replace')[-300:], PROG); return
    wasm = open(o, 'rb').read()
    small = [0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 20, 30]; large = [1, 7, 500, 1000, 1023, 1024, 1025, 1031, 1032, 1033, 1040, 2063, 2064, 2100]
    BUF = [(0, 0, 0), (0, 9, 0), (0, 12, 0), (0, 16, 0), (0, 4, 0), (0, 17, 1), (0, 9, 1), (0, 24, 1), (0, 80, 1), (0, 5, 1), (1, 0, 0), (1, 12, 0), (1, 20, 1), (2, 0, 0), (2, 10, 1), (3, 10, 0)]
    # short histories over a small alphabet
    def al(w): return ([('g', 4, 0, 0, b''), ('r', 4, 1, 3, b''), ('u', 4, 88, 0, b''), ('s', 4, 4, 0, b'')] if w != 'w' else []) + ([('p', 4, 65, 0, b''), ('w', 4, 1, 3, b'x\ny'), ('S', 4, 0, 0, b'pqrs')] if w != 'r' else []) + \
        [('k', 4, 1, 0, b''), ('k', 4, -1, 1, b''), ('k', 4, -1, 2, b''), ('t', 4, 0, 0, b''), ('R', 4, 0, 0, b''), ('f', 4, 0, 0, b'')]
    hs = []
    for m, w in (('r', 'r'), ('w', 'w'), ('a', 'w'), ('r+', 'b'), ('w+', 'b'), ('a+', 'b')):
        for bf in ((0, 0, 0), (0, 4, 0), (1, 0, 0), (2, 0, 0)):
            for q in itertools.product(al(w), repeat=3):
                if rng.random() < (1 if c.thorough else .12): hs.append(dict(files=[b'abc\ndefgh\nij', None, None, None], stdin=b'', tty=False, plan=None, ops=[('o', 4, 4, 0, m.encode()), ('b', 4, bf[0], bf[1], b'')] + list(q) + [('t', 4, 0, 0, b''), ('g', 4, 0, 0, b'') if w != 'w' else ('p', 4, 10, 0, b'')]))
    validate(c, wasm, 'short', hs)
    g = Gen(rng, small); G = Gen(rng, large)
    n = c.n(1, 12)
    validate(c, wasm, 'single', [g.hist(rng.choice([15, 40, 60]), MODES, 1, None, BUF) for _ in range(500 * n)])
    validate(c, wasm, 'several', [g.hist(60, MODES, 3, None, BUF, std=rng.random() < .6) for _ in range(250 * n)])
    validate(c, wasm, 'standard', [g.hist(30, MODES, 0, None, BUF, std=True) for _ in range(150 * n)])
    validate(c, wasm, 'large', [G.hist(25, MODES, 1, rng.choice([None, ('rnd', rng.randint(0, 10**6), .4, 0, ())]), [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1000, 0), (0, 1040, 0)] if rng.random() < .5 else None) for _ in range(120 * n)])
    validate(c, wasm, 'transfers', [g.hist(40, MODES, 1, ('rnd', rng.randint(0, 10**6), .5, 0, ()), BUF) for _ in range(300 * n)])
    validate(c, wasm, 'faults', [g.hist(30, MODES, rng.choice([1, 1, 2]), ('rnd', rng.randint(0, 10**6), .3, rng.choice([.03, .1, .3]), rng.choice([('fd_write',), ('fd_read',), ('fd_seek',), ('fd_close', 'path_open'), ('fd_read', 'fd_write', 'fd_seek', 'fd_close', 'path_open')])), BUF) for _ in range(400 * n)])
    c.sample(hs[0])
if __name__ == '__main__': check.main('S01', run)
