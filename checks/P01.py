"""P01: file-system calls (spec/Posix.tla, PosixTrace.tla, ResolveMC.tla, DirMC.tla)."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from wv import check, host, build, lang, tlc
TECHNIQUE = 'TLA+ specification of path resolution over pre-opened directories, of every descriptor and path call as a function of the host\'s answer, and of directory streams (Posix.tla), with TLC checking the resolution loop and the buffered directory reader exhaustively at small sizes (ResolveMC.tla, DirMC.tla); recorded histories of library calls with injected host errors are validated by TLC (PosixTrace.tla)'
NOTE = 'random sets of pre-opened directories (also nested, repeated, with ./ / and trailing separators, drive style), paths, flags, offsets, directory sizes and name lengths, cookies, host errors at random calls; not covered: directories changed while a stream over them is open (until it is rewound), entries with empty names, memory exhaustion, failing pre-open queries'
PROG = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <string.h>
#include <errno.h>
#include <sys/stat.h>
static int a_[12];
static int fs_[32];
static DIR *ds_[4];
static long tk_[4];
static char p_[8192]; static char q_[8192];
static unsigned char o_[262144];
static int n_ = 0;
static int put(int v, int n) { int i; for (i = 0; i < n; i = i + 1) { o_[24 + n_] = (unsigned char)(v & 255); v = v >> 8; n_ = n_ + 1; } return 0; }
static int put8(long long v) { int i; for (i = 0; i < 8; i = i + 1) { o_[24 + n_] = (unsigned char)(v & 255LL); v = v >> 8; n_ = n_ + 1; } return 0; }
static int ent(const struct dirent *e) { size_t l = strlen(&e->d_name[0]); put8((long long)e->d_ino); put((int)e->d_type, 1); put((int)l, 4); memcpy((void*)&o_[24 + n_], (void*)&e->d_name[0], l); n_ = n_ + (int)l; return 0; }
static int odd(const struct dirent *e) { return (int)e->d_name[0] & 1; }
static bool rd_(void *q, int n) {
  unsigned char *d = q;
  while (n > 0) { int k = (int)read(0, (void*)d, (size_t)n); if (k <= 0) return false; d = d + k; n = n - k; }
  return true;
}
int main(void) {
  int op, fd, fd2, f, n, at, slot, i; long long x, y, r; int *w = (int*)&o_[0]; long long *lw = (long long*)&o_[0];
  long long *la = (long long*)&a_[8]; struct stat st; struct dirent **nl; struct dirent *de; FILE *fp; char *path = &p_[0]; char *path2 = &q_[0]; char *buf = (char*)&o_[24];
  for (i = 0; i < 16; i = i + 1) fs_[i] = i + 3;
  for (i = 16; i < 32; i = i + 1) fs_[i] = 99;
  while (rd_((void*)&a_[0], 48)) {
    op = a_[0]; slot = a_[1]; f = a_[4]; n = a_[5]; at = op & 256; op = op & 255; x = la[0]; y = la[1];
    rd_((void*)&p_[0], a_[6]); p_[a_[6]] = 0; rd_((void*)&q_[0], a_[7]); q_[a_[7]] = 0;
    fd = fs_[a_[2]]; fd2 = fs_[a_[3]]; r = 0LL; n_ = 0; nl = NULL; st.st_mode = (mode_t)(slot * 65 + 16777221);
    if (n >= 0) memset((void*)buf, 238, (size_t)(n + 8));
    errno = 0;
    switch (op) {
      case 'o': if (at != 0) i = openat(fd, path, f); else i = open(path, f); r = (long long)i; if (i >= 0) fs_[slot] = i; break;
      case 'c': r = (long long)close(fd); break;
      case 'r': r = (long long)read(fd, (void*)buf, (size_t)n); n_ = n + 8; break;
      case 'w': r = (long long)write(fd, (void*)path, (size_t)a_[6]); break;
      case 'R': r = (long long)pread(fd, (void*)buf, (size_t)n, (off_t)x); n_ = n + 8; break;
      case 'W': r = (long long)pwrite(fd, (void*)path, (size_t)a_[6], (off_t)x); break;
      case 'k': r = (long long)lseek(fd, (off_t)x, n); break;
      case 't': r = (long long)ftruncate(fd, (off_t)x); break;
      case 'f': case 's': case 'l':
        if (op == 'f') i = fstat(fd, &st); else if (op == 's') i = stat(path, &st); else i = lstat(path, &st);
        r = (long long)i; put8((long long)st.st_dev); put8((long long)st.st_ino); put8((long long)st.st_nlink); put8((long long)st.st_mode); put8((long long)st.st_size);
        put8((long long)st.st_atime); put8((long long)st.st_atime_ns); put8((long long)st.st_mtime); put8((long long)st.st_mtime_ns); put8((long long)st.st_ctime); put8((long long)st.st_ctime_ns); break;
      case 'a': r = (long long)access(path, f); break;
      case 'm': r = (long long)mkdir(path, (mode_t)511); break;
      case 'd': if (at != 0) r = (long long)unlinkat(fd, path, AT_REMOVEDIR); else r = (long long)rmdir(path); break;
      case 'D': r = (long long)rmdirat(fd, path); break;
      case 'u': if (at != 0) r = (long long)unlinkat(fd, path, 0); else r = (long long)unlink(path); break;
      case 'v': r = (long long)remove(path); break;
      case 'n': if (at != 0) r = (long long)linkat(fd, path, fd2, path2, f); else r = (long long)link(path, path2); break;
      case 'M': if (at != 0) r = (long long)renameat(fd, path, fd2, path2); else r = (long long)rename(path, path2); break;
      case 'y': if (at != 0) r = (long long)symlinkat(path2, fd, path); else r = (long long)symlink(path2, path); break;
      case 'Y': if (at != 0) r = (long long)readlinkat(fd, path, buf, (size_t)n); else r = (long long)readlink(path, buf, (size_t)n); n_ = n + 8; break;
      case 'g': r = (long long)fcntl(fd, F_GETFL); break;
      case 'G': r = (long long)fcntl(fd, F_SETFL, f); break;
      case 'x': r = (long long)posix_fadvise(fd, (off_t)x, (off_t)y, n); break;
      case 'X': r = (long long)posix_fallocate(fd, (off_t)x, (off_t)y); break;
      case 'S': r = (long long)fsync(fd); break;
      case 'z': r = (long long)fdatasync(fd); break;
      case 'i': r = (long long)isatty(fd); break;
      case 'F': fp = fopen(path, path2); if (fp != NULL) { i = errno; if (fclose(fp) == 0) r = 1LL; else r = 2LL; errno = i; } break;
      case 'O': if (at != 0) ds_[slot] = opendirat(fd, path); else ds_[slot] = opendir(path); if (ds_[slot] != NULL) r = 1LL; break;
      case 'P': ds_[slot] = fdopendir(fd); if (ds_[slot] != NULL) r = 1LL; break;
    }
    if (op == 'N') {
      if (at != 0) i = scandirat(fd, path, &nl, (f & 1) != 0 ? &odd : (int (*)(const struct dirent *))NULL, (f & 2) != 0 ? &alphasort : (int (*)(const struct dirent **, const struct dirent **))NULL);
      else i = scandir(path, &nl, (f & 1) != 0 ? &odd : (int (*)(const struct dirent *))NULL, (f & 2) != 0 ? &alphasort : (int (*)(const struct dirent **, const struct dirent **))NULL);
      r = (long long)i; i = errno; for (n = 0; n < (int)r; n = n + 1) { ent(nl[n]); free((void*)nl[n]); } if ((int)r >= 0) free((void*)nl); errno = i;
    }
    if (op >= 'A' && ds_[slot & 3] != NULL) switch (op) {
      case 'B': de = readdir(ds_[slot]); if (de != NULL) { r = 1LL; ent(de); } break;
      case 'Z': rewinddir(ds_[slot]); break;
      case 'T': tk_[f] = telldir(ds_[slot]); break;
      case 'U': seekdir(ds_[slot], tk_[f]); break;
      case 'C': r = (long long)closedir(ds_[slot]); ds_[slot] = NULL; break;
      case 'I': r = (long long)dirfd(ds_[slot]); break;
    }
    lw[0] = r; w[2] = errno; w[3] = fd; w[4] = fd2; w[5] = n_;
    write(1, (void*)&o_[0], (size_t)(n_ + 24));
  }
  return 0;
}
'''
CODE = dict(open='o', close='c', read='r', write='w', pread='R', pwrite='W', lseek='k', ftruncate='t', fstat='f', stat='s', lstat='l', access='a', mkdir='m', rmdir='d', unlink='u', remove='v', link='n', rename='M', symlink='y', readlink='Y',
            getfl='g', setfl='G', fadvise='x', fallocate='X', fsync='S', fdatasync='z', isatty='i', fopen='F', opendir='O', fdopendir='P', readdir='B', rewinddir='Z', telldir='T', seekdir='U', closedir='C', dirfd='I', scandir='N')
E = host.E
FERR = [2, 8, 20, 27, 28, 29, 31, 32, 44, 48, 51, 52, 54, 55, 58, 63, 69, 76]   # error numbers a host may report
RD, WR, O_EXEC, O_SEARCH, NOFOLLOW = 0x04000000, 0x10000000, 0x02000000, 0x08000000, 0x01000000
CREAT, DIRECTORY, EXCL, TRUNC, APPEND = 0x1000, 0x2000, 0x4000, 0x8000, 1
FM = {'r': RD, 'r+': RD | WR, 'w': WR | CREAT | TRUNC, 'w+': RD | WR | CREAT | TRUNC, 'a': WR | CREAT | APPEND, 'a+': RD | WR | CREAT | APPEND, 'rb': RD, 'wb': WR | CREAT | TRUNC}
ALL30 = (1 << 30) - 1
def b8(v): return list((v & (2**64 - 1)).to_bytes(8, 'little'))
class PH(host.Host):
    """a host that reports, per library call, the calls it received"""
    QUERY = {'fd_fdstat_get', 'fd_prestat_get', 'fd_prestat_dir_name', 'fd_readdir', 'args_get', 'args_sizes_get', 'environ_get', 'environ_sizes_get', 'clock_time_get', 'proc_exit'}
    def __init__(self, pre, script, plan, inh, cookies, slots):
        super().__init__(preopens=[(n, nd) for n, nd in pre], stdin=script, log_io=False)
        self.plan = plan; self.pre_inh = inh; self.reports = []; self.cur = []; self.qe = []; self.rf = 0; self.cookie_map = cookies
        self.start = sorted(f for f in self.fds if f > 2); self.slots = slots; self.k = 0; self.dfd = {}; self.sl = {}; self.snap = {}; self.pend = None
        for k, fd in enumerate(self.start): self.fds[fd].inh = inh[k % len(inh)]
    def inh(self, fd): return getattr(self.fds.get(fd & 0xffffffff), 'inh', ALL30)
    def fault(self, call, fd=None):
        if call.startswith('fd_prestat') or fd in (0, 1): return None
        f = self.plan(call)
        return f
    def call(self, name, args):
        if name == 'fd_write' and args[0] == 1:
            data = b''.join(self.rd(a, l) for a, l in self.iovs(args[1], args[2])); self.w32(args[3], len(data)); self.report(data); return 0
        if name == 'fd_read' and args[0] == 0: return super().call(name, args)
        if name in self.QUERY:
            r = super().call(name, args)
            if name == 'fd_readdir' and r: self.rf = r
            elif r and name != 'fd_prestat_get': self.qe.append(r)
            return r
        u = [a & 0xffffffff for a in args]
        h = dict(c=name, fd=u[0], fd2=-1, p=[], p2=[], l=0, o=0, ff=0, rb=b8(0), inh=b8(self.inh(u[0])), x=b8(0), y=b8(0), n=0, r=0, out=[])
        if name in self.PATHARGS:
            ps = [list(self.rd(args[i], args[j])) for i, j in self.PATHARGS[name]]; h['p'] = ps[0]
            if len(ps) > 1: h['p2'] = ps[1]
        if name == 'path_symlink': h['fd'] = u[2]; h['p'], h['p2'] = h['p2'], h['p']; h['inh'] = b8(self.inh(u[2]))
        if name == 'path_open': h.update(l=u[1], o=u[4], rb=b8(args[5]), ff=u[7])
        if name == 'path_filestat_get': h['l'] = u[1]
        if name == 'path_link': h.update(l=u[1], fd2=u[4])
        if name == 'path_rename': h['fd2'] = u[3]
        if name in ('fd_write', 'fd_pwrite'): h['out'] = list(b''.join(self.rd(a, l) for a, l in self.iovs(args[1], args[2])))
        if name in ('fd_read', 'fd_pread'): h['n'] = sum(l for a, l in self.iovs(args[1], args[2]))
        if name in ('fd_pread', 'fd_pwrite'): h['x'] = b8(args[3])
        if name == 'fd_seek': h.update(x=b8(args[1]), n=u[2])
        if name == 'fd_filestat_set_size': h['x'] = b8(args[1])
        if name in ('fd_advise', 'fd_allocate'): h.update(x=b8(args[1]), y=b8(args[2]), n=u[3] if name == 'fd_advise' else 0)
        if name == 'fd_fdstat_set_flags': h['ff'] = u[1]
        if name == 'path_readlink': h['n'] = u[4]
        r = super().call(name, args); h['e'] = r
        if r == 0:
            if name == 'path_open': h['r'] = struct.unpack('<I', self.rd(args[8], 4))[0]; self.fds[h['r']].inh = self.inh(u[0])
            if name in ('fd_write', 'fd_pwrite'): h['r'] = struct.unpack('<I', self.rd(args[-1], 4))[0]
            if name in ('fd_read', 'fd_pread'):
                n = struct.unpack('<I', self.rd(args[-1], 4))[0]; h['out'] = list(b''.join(self.rd(a, l) for a, l in self.iovs(args[1], args[2]))[:n])
            if name == 'fd_seek': h['out'] = list(self.rd(args[3], 8))
            if name in ('fd_filestat_get', 'path_filestat_get'): h['out'] = list(self.rd(args[-1], 64))
            if name == 'path_readlink': n = struct.unpack('<I', self.rd(args[5], 4))[0]; h['out'] = list(self.rd(args[3], n))
        self.cur.append(h); return r
    def _fst(self, node, r):
        self.wr(r, struct.pack('<QQB7xQQQQQ', getattr(node, 'dev', 1), node.ino, getattr(node, 'ft', self.ftype(node)), node.nlink, getattr(node, 'size', len(node.data)), node.atim, node.mtim, node.ctim))
    def fd_fdstat_get(self, fd, r):
        e = super().fd_fdstat_get(fd, r)
        if e == 0:
            f = self.fds[fd & 0xffffffff]
            self.wr(r, struct.pack('<BxHxxxxQQ', getattr(f.node, 'ft', self.ftype(f.node)), f.flags, f.rights & ALL30, self.inh(fd)))
        return e
    def listing(self, fd):
        f = self.fds.get(fd & 0xffffffff)
        if f is None or f.node.kind != 'dir': return []
        return [dict(ino=b8(nd.ino), type=self.ftype(nd), name=list(nm)) for nm, nd in f.node.ents.items()]
    def report(self, data):
        ret, err, fd, fd2, nd = struct.unpack('<qiiii', data[:24]); d = data[24:24 + nd]; k = self.k; self.k += 1
        o = self.slots[k]; name = o['op']; lst = []; ents = []; chg = False
        if name in ('readdir', 'scandir'):
            z = 0
            while z < len(d):
                l = struct.unpack('<I', d[z + 9:z + 13])[0]; lst.append(dict(ino=list(d[z:z + 8]), type=d[z + 8], name=list(d[z + 13:z + 13 + l]))); z += 13 + l
            d = b''
        opened = [h['r'] for h in self.cur if h['c'] == 'path_open' and h['e'] == 0]
        if name == 'opendir' and opened: ents = self.listing(opened[0]); self.sl[o['slot']] = opened[0]
        elif name == 'fdopendir': ents = self.listing(fd); self.sl[o['slot']] = fd
        elif name == 'rewinddir': ents = self.listing(self.sl.get(o['slot'], -1))
        elif name in ('readdir', 'telldir', 'seekdir'): chg = self.listing(self.sl.get(o['slot'], -1)) != self.snap.get(o['slot'])
        elif name == 'scandir' and opened: ents = self.pend or []
        if name in ('opendir', 'fdopendir', 'rewinddir'): self.snap[o['slot']] = ents
        f = self.fds.get(fd)
        st = dict(ok=f is not None and not self.qe, ff=f.flags if f else 0, ft=getattr(f.node, 'ft', self.ftype(f.node)) if f else 0, rb=b8(f.rights & ALL30) if f else b8(0))
        self.reports.append(dict(op=name, at=bool(o.get('at')), fd=fd, fd2=fd2, p=list(o['p']), p2=list(o['q']), f=o['f'], n=o['n'], slot=o['slot'] + 1, x=b8(o['x']), y=b8(o['y']), ret=b8(ret), err=err, d=list(d), list=lst,
            h=self.cur, qe=self.qe, rf=self.rf, ents=ents, chg=chg, st=st, fds=sorted(x for x in self.fds if x > 2)))
        self.cur = []; self.qe = []; self.rf = 0; self.pend = None
    def fd_close(self, fd):
        l = self.listing(fd); e = super().fd_close(fd); self.pend = l; return e
def script(ops):
    out = b''
    for o in ops:
        out += struct.pack('<8iqq', ord(CODE[o['op']]) | (256 if o.get('at') else 0), o['slot'], o['fd'], o['fd2'], o['cf'], o['n'], len(o['p']), len(o['q']), o['x'], o['y']) + o['p'] + o['q']
    return out
def noplan(call): return None
def rndplan(seed, perr, only=None):
    import random; r = random.Random(seed)
    def plan(call):
        if only and call not in only: return None
        if r.random() < perr: return dict(errno=r.choice(FERR))
        if call in ('fd_read', 'fd_write', 'fd_pread', 'fd_pwrite') and r.random() < 3 * perr: return dict(short=r.randint(0, 3))
    return plan
def tree(spec):
    """spec: nested dict name -> dict | bytes | ('link', target)"""
    n = host.Node('dir')
    for k, v in spec.items():
        n.ents[k] = tree(v) if isinstance(v, dict) else host.Node('link', target=v[1]) if isinstance(v, tuple) else host.Node('file', v)
    return n
def adorn(node, seed):
    import random; r = random.Random(seed)
    def go(n):
        n.dev = r.choice([1, 7, 2**63 + 5, 2**40]); n.atim, n.mtim, n.ctim = (r.choice([0, 999999999, 10**9, 10**18 + r.randrange(10**9), r.randrange(2**63), 2**63 + r.randrange(2**62), 2**32 * 10**9 + 1]) for _ in range(3))
        n.ino = r.choice([n.ino, r.randrange(2**64)]); n.nlink = r.choice([1, 2, 2**33 + 1])
        if n.kind == 'file' and r.random() < .3: n.size = r.choice([2**31, 2**32 + 3, 2**62])
        if n.kind == 'file' and r.random() < .25: n.ft = r.choice([0, 1, 2, 5, 6])
        for x in n.ents.values(): go(x)
    go(node); return node
def job(a):
    wasm, h = a
    names = h['pre']; pre = [(n, adorn(tree(t), h['seed'] + k) if h.get('adorn') else tree(t)) for k, (n, t) in enumerate(names)]
    ck = h.get('cookies', 0)
    cm = None if ck == 0 else (lambda i: i and (i * 7919 + 13)) if ck == 1 else (lambda i: i and (0xfff00000 + i * 3)) if ck == 2 else (lambda i: i and ((1 << 63) + (i << 33)))
    H = PH(pre, script(h['ops']), noplan if not h['perr'] else rndplan(h['seed'], h['perr'], h.get('only')), h['inh'], cm, h['ops'])
    r = host.run(wasm, H, 300_000_000)
    return dict(status=r.status, code=r.code, msg=r.msg[-300:], ev=H.reports, fds=H.start)
def validate(c, wasm, part, hs, key=None):
    rs = lang.pmap(job, [(wasm, h) for h in hs]); data = []
    for k, r in enumerate(rs):
        if r['status'] not in ('return', 'exit') or len(r['ev']) != len(hs[k]['ops']):
            c.violation(key or part + ':stopped', 'the program ended early (%s %s) in %s' % (r['status'], r['msg'], hs[k]['ops'][len(r['ev'])]['op'] if len(r['ev']) < len(hs[k]['ops']) else '-'), dict(history=hs[k], done=len(r['ev'])))
        data.append(dict(pre=[dict(fd=3 + j, name=list(n)) for j, (n, t) in enumerate(hs[k]['pre'])], fds=r['fds'], ev=r['ev']))
    B = 400
    calls = {}
    for z in range(0, len(data), B):
        t = c.tlc('PosixTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=dict(hist=data[z:z + B])), heap='12g', timeout=800)
        if t.distinct != 2 * len(data[z:z + B]): raise tlc.ModelError('TLC judged %d of %d histories' % (t.distinct, 2 * len(data[z:z + B])))
        for p in t.prints:
            n = z + p['i'] - 1; e = dict(rs[n]['ev'][p['at'] - 1])
            c.violation(key or '%s:%s' % (part, p['op']), 'call %d (%s) of a history is not allowed: path %r fd %s flags %#x -> result %d errno %d, host calls %s' % (p['at'], p['op'], bytes(e['p']), e['fd'], e['f'], int.from_bytes(bytes(e['ret']), 'little', signed=True), e['err'],
                [(h['c'], h['fd'], bytes(h['p']), h['e']) for h in e['h']]), dict(preopens=[n2 for n2, _ in hs[n]['pre']], ops=[(o['op'], o['p'], o['q'], o['fd'], o['f'], o['x']) for o in hs[n]['ops'][:p['at']]], event=e))
    for r in rs:
        for e in r['ev']:
            q = calls.setdefault(e['op'], [0, 0]); q[0] += 1; q[1] += e['err'] != 0
    c.traces += len(hs); c.part(part, histories=len(hs), calls={k: '%d/%d' % (v[0] - v[1], v[0]) for k, v in sorted(calls.items())})
# ---------------------------------------------------------------------------------------------------------------
def op(name, p=b'', q=b'', fd=0, fd2=0, f=0, n=0, x=0, y=0, slot=0, at=False, cf=None):
    return dict(op=name, p=p, q=q, fd=fd, fd2=fd2, f=f, cf=f if cf is None else cf, n=n, x=x, y=y, slot=slot, at=at)
NAMES = [b'a', b'b', b'ab', b'data', b'dat', b'data.x', b'x']
PRE = [b'/', b'.', b'./', b'/a', b'a', b'./a', b'/a/', b'/a/b', b'a/b/', b'/ab', b'data', b'/data', b'/data/sub', b'./data', b'/dat', b'/data.x', b'..', b'./.', b'//data', b'/a/b/c/d', b'x/./y', b'/data//']
def files(r, depth=2):
    t = {}
    for n in r.sample(NAMES, r.randint(1, 4)):
        y = r.random()
        t[n] = {} if y < .1 else files(r, depth - 1) if depth and y < .45 else ('link', r.choice(NAMES)) if y < .6 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40])))
    return t
def preopens(r, n=None):
    if r.random() < .06: return [(x, files(r)) for x in r.sample([b'C:\\', b'D:\\data\\', b'D:\\', b'C:\\a'], r.randint(1, 3))]
    return [(x, files(r)) for x in (r.choice(PRE) for _ in range(n if n is not None else r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 9, 12])))]
def inside(r, pre):
    """a path to something that is there, or to be created beside it"""
    n, t = r.choice(pre); s = b'\\' if n.endswith(b'\\') else b'/'; w = []
    while isinstance(t, dict) and t and r.random() < .85:
        k = r.choice(sorted(t)); w.append(k); t = t[k]
    if r.random() < .25: w.append(r.choice(NAMES))
    p = n if not w else n.rstrip(s) + s + s.join(w)
    return b'./' + p if r.random() < .1 and p[:1] != s else s + p if r.random() < .1 else p
def paths(r, pre):
    if pre and r.random() < .6: return inside(r, pre)
    s = b'\\' if any(n.endswith(b'\\') for n, _ in pre) else b'/'
    y = r.random()
    base = r.choice(pre)[0] if pre and y < .7 else r.choice(PRE)
    k = r.random()
    if k < .15: p = base
    elif k < .75: p = base + (b'' if base.endswith(s) else s) + s.join(r.choice(NAMES) for _ in range(r.randint(1, 3)))
    elif k < .85: p = base + r.choice(NAMES)
    else: p = s.join(r.choice(NAMES + [b'.', b'..']) for _ in range(r.randint(1, 4)))
    k = r.random()
    if k < .1: p = b'/' + p
    elif k < .2: p = b'./' + p
    elif k < .25: p = p + s
    elif k < .28: p = p + s + s
    elif k < .31: p = p.lstrip(b'/')
    elif k < .33: p = p[:-1]
    elif k < .35: p = b''
    elif k < .37: p = b'././/' + p
    elif k < .39: p = p + b'/.'
    elif k < .41: p = p.replace(b'/', b'//')
    return p
OFF = [0, 1, 3, 100, -1, -2**63, 2**31, 2**32 + 5, 2**62]
def flags(r):
    f = r.choice([RD, RD, WR, RD | WR, RD | WR, O_SEARCH, O_EXEC, RD | WR | CREAT, WR | CREAT | TRUNC, WR | CREAT | APPEND])
    if r.random() < .2: f |= r.choice([CREAT, DIRECTORY, EXCL, TRUNC, NOFOLLOW, 1, 2, 4, 8, 16, CREAT | EXCL])
    if r.random() < .05: f = r.choice([0, RD | O_EXEC, O_SEARCH | WR, CREAT, O_EXEC | O_SEARCH])
    return f
def general(r, n, perr, resolve_only=False):
    pre = preopens(r); ops = []; P = lambda: paths(r, pre)
    big = r.random() < .2
    inh = [r.choice([ALL30, ALL30, ALL30 & ~(1 << 6), ALL30 & ~(1 << 1), ALL30 & ~((1 << 14) | 2), r.randrange(1 << 30)]) for _ in range(3)]
    for _ in range(n):
        k = r.choice(['open'] * 4 + ['stat', 'lstat', 'access', 'mkdir', 'rmdir', 'unlink', 'remove', 'link', 'rename', 'symlink', 'readlink', 'fopen', 'scandir'] + ([] if resolve_only else ['close', 'read', 'read', 'write', 'pread', 'pwrite', 'lseek', 'ftruncate', 'fstat', 'getfl', 'setfl', 'fadvise', 'fallocate', 'fsync', 'fdatasync', 'isatty']))
        fd = r.choice([16, 17, 18, 16, 17, 18, 0, 1, 31]); at = r.random() < .25; dfd = r.choice([0, 0, 0, 1, 2, 16, 31])
        o = dict(x=r.choice(OFF), y=r.choice(OFF))
        if k == 'open': ops.append(op(k, P(), f=flags(r), at=at, fd=dfd, slot=r.choice([16, 17, 18])))
        elif k == 'close': ops.append(op(k, fd=r.choice([16, 17, 18, 31])))
        elif k in ('read', 'pread'): ops.append(op(k, fd=fd, n=r.choice([0, 1, 3, 10, 50]), **o))
        elif k in ('write', 'pwrite'): ops.append(op(k, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 20]))), fd=fd, x=r.choice([0, 1, 7, -1])))
        elif k == 'lseek': ops.append(op(k, fd=fd, n=r.choice([0, 1, 2, 2, 7]), x=r.choice(OFF)))
        elif k == 'ftruncate': ops.append(op(k, fd=fd, x=r.choice([0, 1, 10, -1, -2**63])))
        elif k in ('fadvise', 'fallocate'): ops.append(op(k, fd=fd, n=r.randrange(6), x=r.choice([0, 1, 2**33, -1]), y=r.choice([0, 5, 100, -5])))
        elif k in ('stat', 'lstat', 'mkdir', 'remove'): ops.append(op(k, P(), slot=r.randrange(4)))
        elif k == 'access': ops.append(op(k, P(), f=r.choice([0, 1, 2, 4, 6, 7, 7, 8, 12])))
        elif k in ('rmdir', 'unlink'): ops.append(op(k, P(), at=at, fd=dfd))
        elif k == 'link': ops.append(op(k, P(), P(), at=at, fd=dfd, fd2=r.choice([0, 0, 1, 2]), f=r.choice([0, 2, 2, 1]) if at else 0))
        elif k == 'rename': ops.append(op(k, P(), P(), at=at, fd=dfd, fd2=r.choice([0, 0, 1, 2])))
        elif k == 'symlink': ops.append(op(k, P(), P(), at=at, fd=dfd))
        elif k == 'readlink': ops.append(op(k, P(), at=at, fd=dfd, n=r.choice([1, 2, 4, 64])))
        elif k == 'setfl': ops.append(op(k, fd=fd, f=r.choice([0, 1, 4, 5, 31, RD | 1])))
        elif k == 'fopen': m = r.choice(list(FM)); ops.append(op(k, P(), m.encode(), f=FM[m]))
        elif k == 'scandir': ops.append(op(k, P(), at=at, fd=dfd, f=r.randrange(4)))
        else: ops.append(op(k, fd=fd))
    return dict(pre=pre, ops=ops, seed=r.randrange(1 << 30), perr=perr, inh=inh, adorn=r.random() < .7)
def fixup(h):       # what the pre-opened slots can name: slots 0..15 are descriptors 3.. whether open or not
    return h
def dirnames(r):
    n = r.choice([0, 1, 2, 3, 7, 20, 60, 120, 300]); L = set(); style = r.choice(['short', 'mixed', 'long', 'exact'])
    while len(L) < n:
        k = dict(short=r.randint(1, 8), mixed=r.choice([1, 5, 100, 232, 255, 40]), long=r.choice([200, 255]), exact=8)[style]
        L.add(bytes(r.choice(b'abcdefghijklmnopqrstuvwxyzABC0123456789._-') for _ in range(k)))
        if style == 'exact' and len(L) >= n: break
    L = sorted(L - {b'.', b'..'}) if r.random() < .5 else [x for x in L if x not in (b'.', b'..')]
    if r.random() < .12 and L: L.insert(r.randrange(len(L)), b'q' * r.choice([4072, 4071, 4073, 4095, 6000, 8200]))
    t = {}
    for x in L: t[x] = {} if r.random() < .2 else ('link', b'x') if r.random() < .2 else b''
    return t
def dirs(r, n, perr, cookies):
    big = dirnames(r); pre = [(b'/', {b'd': big, b'e': dirnames(r) if r.random() < .5 else {}, b'f': b'file'})]
    ops = [op('opendir', b'/d', slot=0)]; open_ = {0}; have = {}
    for _ in range(n):
        k = r.random(); s = r.choice(sorted(open_)) if open_ else None
        if s is None or k < .06:
            s = r.randrange(4)
            if s in open_: ops.append(op('closedir', slot=s)); open_.discard(s)
            y = r.random()
            if y < .2 and not perr:
                ops.append(op('open', b'/d', f=RD | DIRECTORY, slot=16 + s)); ops.append(op('fdopendir', fd=16 + s, slot=s))
            else: ops.append(op('opendir', r.choice([b'/d', b'/e', b'd', b'/', b'/d/']), slot=s, at=False)) if y < .7 else ops.append(op('opendir', r.choice([b'd', b'e', b'.']), slot=s, at=True, fd=0))
            open_.add(s); have[s] = set()
        elif k < .72: ops += [op('readdir', slot=s) for _ in range(r.choice([1, 1, 2, 5, 40, 120]))]
        elif k < .77: ops.append(op('rewinddir', slot=s)); have[s] = set()
        elif k < .84: z = s; ops.append(op('telldir', slot=s, f=z)); have.setdefault(s, set()).add(z)
        elif k < .90 and have.get(s): ops.append(op('seekdir', slot=s, f=r.choice(sorted(have[s]))))
        elif k < .92: ops.append(op('dirfd', slot=s))
        elif k < .96: ops.append(op('scandir', r.choice([b'/d', b'/e', b'/f', b'/nope']), f=r.randrange(4)))
        elif k < .98: ops.append(op(r.choice(['mkdir', 'symlink']), r.choice([b'/d/new%d' % r.randrange(9), b'/e/n%d' % r.randrange(9)]), b'x')); ops.append(op('rewinddir', slot=s)); have[s] = set()
        else: ops.append(op('closedir', slot=s)); open_.discard(s)
    return dict(pre=pre, ops=ops, seed=r.randrange(1 << 30), perr=perr, inh=[ALL30], cookies=cookies, only={'fd_readdir', 'fd_close', 'path_open', 'fd_fdstat_get'} if perr else None)
def clean(h):
    """operations on streams whose opening failed are skipped by the driver; the specification never sees a stream that is not open"""
    return h
def model(c):
    for np, nl, pl in [(1, 3, 5), (2, 2, 5)] + ([(2, 3, 4), (1, 4, 6)] if c.thorough else []):
        c.tlc('ResolveMC', 'CONSTANTS ALPHA = {97, 46, 47} NAMELEN = %d PATHLEN = %d NPRE = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS LoopOK Boundary Longest NotAbsolute OneRest Itself\n' % (nl, pl, np), timeout=800)
    c.tlc('DirMC', 'CONSTANTS N = %d MAXSIZE = 5 HDR = 2 CAPS = {2,3,4,5,7} ERRS = 2 SEEKS = 2\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS InOrder Complete CookieIsPos\n' % (5 if c.thorough else 3), timeout=800)
    c.tlc('DirMC', 'CONSTANTS N = 3 MAXSIZE = 5 HDR = 2 CAPS = {2,3,5} ERRS = 1 SEEKS = 1\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InOrder Complete\nPROPERTY Ends\n', timeout=800)
def run(c):
    if not os.environ.get('NOMC'): model(c)
    r = c.rng
    d = build.scratch('wvp01-'); src = os.path.join(d, 'p.c'); out = os.path.join(d, 'p.wasm'); open(src, 'w').write(PROG)
    rc, so, se = c.tool().link([src], out)
    if rc or not os.path.exists(out): c.violation('driver', 'driver program does not compile: %s' % (so + se).decode()[-500:], {}); return
    wasm = open(out, 'rb').read()
    validate(c, wasm, 'resolution', [general(r, 25, 0, True) for _ in range(c.n(220, 3000))])
    validate(c, wasm, 'calls', [general(r, 50, 0) for _ in range(c.n(150, 2500))])
    validate(c, wasm, 'calls with host errors', [general(r, 50, r.choice([.03, .15])) for _ in range(c.n(150, 2500))])
    validate(c, wasm, 'directories', [dirs(r, 30, 0, r.choice([0, 1, 2])) for _ in range(c.n(45, 1200))])
    validate(c, wasm, 'directories with host errors', [dirs(r, 30, .1, r.choice([0, 1, 2])) for _ in range(c.n(35, 1000))])
    validate(c, wasm, 'wide cookies', [dict(h, ops=[o for o in h['ops'] if o['op'] not in ('telldir', 'seekdir')]) for h in (dirs(r, 30, 0, 3) for _ in range(c.n(10, 100)))])
    # finding: positions are reported as long
    t = {b'n%02d' % k: b'' for k in range(12)}
    validate(c, wasm, 'positions beyond 32 bits', [dict(pre=[(b'/', {b'd': t})], ops=[op('opendir', b'/d')] + [op('readdir')] * 3 + [op('telldir')] + [op('readdir')] * 2 + [op('seekdir'), op('readdir')], seed=1, perr=0, inh=[ALL30], cookies=3)], key='telldir-64')
if __name__ == '__main__': check.main('P01', run)
