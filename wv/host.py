"""In-memory WASI host.

Runs a compiled program under wasmtime with every WASI import served by Python from an
in-memory file system, so that nothing the program does can reach the real file system.
Each call is logged, and a fault plan can make chosen calls fail or transfer short.
"""
import struct
import wasmtime as w

E = dict(SUCCESS=0, FBIG=22, ACCES=2, BADF=8, EXIST=20, INVAL=28, IO=29, ISDIR=31, NOENT=44, NOSPC=51,
         NOSYS=52, NOTDIR=54, NOTEMPTY=55, SPIPE=70, NOTCAPABLE=76, LOOP=32)

class ProcExit(Exception):
    def __init__(self, code): self.code = code

class Node:
    _ino = 100
    def __init__(self, kind, data=None, target=None):
        Node._ino += 1
        self.ino = Node._ino; self.kind = kind; self.nlink = 1
        self.data = bytearray(data or b'')         # files
        self.ents = {}                             # dirs: ordered name -> Node
        self.target = target                       # symlinks
        self.atim = self.mtim = self.ctim = 0

class Fd:
    def __init__(self, node, flags=0, pos=0, preopen=None, rights=(1 << 64) - 1):
        self.node, self.flags, self.pos, self.preopen, self.rights = node, flags, pos, preopen, rights

class Host:
    def __init__(self, argv=(b'prog',), env=(), stdin=b'', preopens=None, faults=(), time_ns=10**18,
                 log_io=True, tty=(), infd=0):
        self.argv = [a if isinstance(a, bytes) else a.encode() for a in argv]
        self.env = [a if isinstance(a, bytes) else a.encode() for a in env]
        self.mem = None; self.store = None
        self.log = []; self.out = bytearray(); self.err = bytearray()
        self.faults = [dict(f) for f in faults]; self.counts = {}
        self.time_ns = time_ns; self.log_io = log_io; self.tty = set(tty)
        self.fds = {0: Fd(Node('stdin', stdin)), 1: Fd(Node('stdout')), 2: Fd(Node('stderr'))}
        if preopens is None: preopens = [('.', Node('dir'))]
        for i, (name, node) in enumerate(preopens):
            self.fds[3 + i] = Fd(node, preopen=name if isinstance(name, bytes) else name.encode())
        if infd: self.fds[infd] = Fd(Node('stdin', stdin)); self.fds[0] = Fd(Node('stdin', b''))
        self.rand = 12345

    # --- memory access -------------------------------------------------------------
    def rd(self, a, n):
        a &= 0xffffffff
        if n == 0: return b''
        b = self.mem.read(self.store, a, a + n)
        if len(b) != n: raise RuntimeError("bad guest address")
        return bytes(b)
    def wr(self, a, b):
        if b: self.mem.write(self.store, bytes(b), a & 0xffffffff)
    def w32(self, a, v): self.wr(a, struct.pack('<I', v & 0xffffffff))
    def w64(self, a, v): self.wr(a, struct.pack('<Q', v & 0xffffffffffffffff))
    def iovs(self, p, n):
        return [struct.unpack('<II', self.rd(p + 8 * i, 8)) for i in range(n)]

    # --- fault plan ----------------------------------------------------------------
    def fault(self, call, fd=None):
        k = (call, fd)
        c = self.counts[k] = self.counts.get(k, 0) + 1
        ca = self.counts[call] = self.counts.get(call, 0) + 1
        for f in self.faults:
            if f['call'] != call: continue
            if f.get('fd') is not None:
                if f['fd'] == fd and ('nth' not in f or f['nth'] == c): return f
            elif 'nth' not in f or f['nth'] == ca: return f
        return None

    # --- path walking --------------------------------------------------------------
    def walk(self, dirfd, path, parent=False, follow=True, depth=0):
        f = self.fds.get(dirfd)
        if f is None: return None, None, E['BADF']
        if f.node.kind != 'dir': return None, None, E['NOTDIR']
        if path.startswith(b'/'): return None, None, E['NOTCAPABLE']
        comps = [c for c in path.split(b'/') if c not in (b'', b'.')]
        stack = [f.node]
        for i, c in enumerate(comps):
            last = i == len(comps) - 1
            cur = stack[-1]
            if cur.kind != 'dir': return None, None, E['NOTDIR']
            if c == b'..':
                if len(stack) == 1: return None, None, E['NOTCAPABLE']
                stack.pop(); continue
            nxt = cur.ents.get(c)
            if last and parent: return cur, c, 0
            if nxt is None: return None, None, E['NOENT']
            if nxt.kind == 'link' and (not last or follow):
                if depth > 8: return None, None, E['LOOP']
                rest = b'/'.join([nxt.target] + comps[i + 1:])
                return self.walk(dirfd, rest, parent, follow, depth + 1)
            stack.append(nxt)
        if parent: return stack[-1], b'.', 0
        return stack[-1], None, 0

    # --- calls ---------------------------------------------------------------------
    def args_sizes_get(self, a, b):
        self.w32(a, len(self.argv)); self.w32(b, sum(len(x) + 1 for x in self.argv)); return 0
    def args_get(self, pv, pb): return self._vec(self.argv, pv, pb)
    def environ_sizes_get(self, a, b):
        self.w32(a, len(self.env)); self.w32(b, sum(len(x) + 1 for x in self.env)); return 0
    def environ_get(self, pv, pb): return self._vec(self.env, pv, pb)
    def _vec(self, v, pv, pb):
        for i, x in enumerate(v):
            self.w32(pv + 4 * i, pb); self.wr(pb, x + b'\0'); pb += len(x) + 1
        return 0
    def clock_time_get(self, id, prec, p):
        ft = self.fault('clock_time_get')
        if ft: return ft['errno']
        self.w64(p, self.time_ns if id == 0 else self.time_ns // 7); return 0
    def clock_res_get(self, id, p): self.w64(p, 1); return 0
    def random_get(self, p, n):
        out = bytearray()
        for _ in range(n):
            self.rand = (self.rand * 1103515245 + 12345) & 0x7fffffff; out.append((self.rand >> 16) & 255)
        self.wr(p, out); return 0
    def sched_yield(self): return 0
    def proc_exit(self, code): raise ProcExit(code & 0xffffffff)
    def proc_raise(self, sig): raise ProcExit(0x10000 + sig)
    def poll_oneoff(self, a, b, n, r): return E['NOSYS']

    def fd_write(self, fd, iv, n, r, off=None):
        f = self.fds.get(fd & 0xffffffff)
        data = b''.join(self.rd(a, l) for a, l in self.iovs(iv, n))
        ft = self.fault('fd_write' if off is None else 'fd_pwrite', fd)
        if f is None or f.node.kind == 'dir': return E['BADF']
        if ft and 'errno' in ft: return ft['errno']
        if ft and 'short' in ft: data = data[:min(len(data), ft['short'])]
        nd = f.node
        if nd.kind == 'stdout': self.out += data
        elif nd.kind == 'stderr': self.err += data
        elif nd.kind == 'stdin': return E['BADF']
        else:
            pos = f.pos if off is None else off
            if pos > 1 << 24: return E['FBIG']
            if f.flags & 1 and off is None: pos = len(nd.data)
            if data and pos > len(nd.data): nd.data += b'\0' * (pos - len(nd.data))
            if data: nd.data[pos:pos + len(data)] = data
            if off is None: f.pos = pos + len(data)
        self.w32(r, len(data))
        return 0
    def fd_pwrite(self, fd, iv, n, off, r): return self.fd_write(fd, iv, n, r, off & (2**64 - 1))
    def fd_read(self, fd, iv, n, r, off=None):
        f = self.fds.get(fd & 0xffffffff)
        ft = self.fault('fd_read' if off is None else 'fd_pread', fd)
        if f is None: return E['BADF']
        if f.node.kind == 'dir': return E['ISDIR']
        if f.node.kind in ('stdout', 'stderr'): return E['BADF']
        if ft and 'errno' in ft: return ft['errno']
        pos = f.pos if off is None else off
        lim = ft['short'] if ft and 'short' in ft else 1 << 40
        tot = 0
        for a, l in self.iovs(iv, n):
            k = min(l, lim - tot)
            b = bytes(f.node.data[pos:pos + k])
            self.wr(a, b); pos += len(b); tot += len(b)
            if len(b) < l: break
        if off is None: f.pos = pos
        self.w32(r, tot)
        return 0
    def fd_pread(self, fd, iv, n, off, r): return self.fd_read(fd, iv, n, r, off & (2**64 - 1))
    def fd_seek(self, fd, off, wh, r):
        f = self.fds.get(fd & 0xffffffff)
        ft = self.fault('fd_seek', fd)
        if f is None: return E['BADF']
        if ft: return ft['errno']
        if f.node.kind in ('stdin', 'stdout', 'stderr'):
            return E['SPIPE']
        if f.node.kind == 'dir': return E['BADF']
        base = {0: 0, 1: f.pos, 2: len(f.node.data)}.get(wh & 0xff)
        if base is None: return E['INVAL']
        if base + off < 0: return E['INVAL']
        f.pos = base + off; self.w64(r, f.pos); return 0
    def fd_tell(self, fd, r):
        f = self.fds.get(fd & 0xffffffff)
        ft = self.fault('fd_tell', fd)
        if f is None: return E['BADF']
        if ft: return ft['errno']
        if f.node.kind in ('stdin', 'stdout', 'stderr'): return E['SPIPE']
        self.w64(r, f.pos); return 0
    def fd_close(self, fd):
        ft = self.fault('fd_close', fd)
        if (fd & 0xffffffff) not in self.fds: return E['BADF']
        del self.fds[fd & 0xffffffff]
        if ft: return ft['errno']
        return 0
    def _simple(self, name, fd):
        ft = self.fault(name, fd)
        if (fd & 0xffffffff) not in self.fds: return E['BADF']
        return ft['errno'] if ft else 0
    def fd_sync(self, fd): return self._simple('fd_sync', fd)
    def fd_datasync(self, fd): return self._simple('fd_datasync', fd)
    def fd_advise(self, fd, off, ln, adv): return self._simple('fd_advise', fd)
    def fd_allocate(self, fd, off, ln):
        e = self._simple('fd_allocate', fd)
        if e: return e
        nd = self.fds[fd].node
        if off + ln > 1 << 24: return E['FBIG']
        if off + ln > len(nd.data): nd.data += b'\0' * (off + ln - len(nd.data))
        return 0
    def ftype(self, node):
        return {'dir': 3, 'file': 4, 'link': 7}.get(node.kind, 2)
    def fd_fdstat_get(self, fd, r):
        ft = self.fault('fd_fdstat_get', fd)
        f = self.fds.get(fd & 0xffffffff)
        if f is None: return E['BADF']
        if ft: return ft['errno']
        t = self.ftype(f.node)
        rights = f.rights
        if f.node.kind in ('stdin', 'stdout', 'stderr'):
            if fd in self.tty: rights &= ~((1 << 2) | (1 << 5))
            else: t = 4
        self.wr(r, struct.pack('<BxHxxxxQQ', t, f.flags, rights, (1 << 64) - 1)); return 0
    def fd_fdstat_set_flags(self, fd, fl):
        e = self._simple('fd_fdstat_set_flags', fd)
        if e: return e
        self.fds[fd].flags = fl; return 0
    def fd_fdstat_set_rights(self, fd, a, b): return self._simple('fd_fdstat_set_rights', fd)
    def _fst(self, node, r):
        self.wr(r, struct.pack('<QQB7xQQQQQ', 1, node.ino, self.ftype(node), node.nlink,
                               len(node.data), node.atim, node.mtim, node.ctim))
    def fd_filestat_get(self, fd, r):
        e = self._simple('fd_filestat_get', fd)
        if e: return e
        self._fst(self.fds[fd & 0xffffffff].node, r); return 0
    def fd_filestat_set_size(self, fd, n):
        e = self._simple('fd_filestat_set_size', fd)
        if e: return e
        if n < 0: return E['INVAL']
        if n > 1 << 24: return E['FBIG']
        nd = self.fds[fd & 0xffffffff].node
        if n < len(nd.data): del nd.data[n:]
        else: nd.data += b'\0' * (n - len(nd.data))
        return 0
    def fd_filestat_set_times(self, fd, a, m, fl):
        e = self._simple('fd_filestat_set_times', fd)
        if e: return e
        nd = self.fds[fd & 0xffffffff].node; nd.atim, nd.mtim = a, m
        return 0
    def fd_prestat_get(self, fd, r):
        ft = self.fault('fd_prestat_get', fd)
        f = self.fds.get(fd & 0xffffffff)
        if f is None or f.preopen is None: return E['BADF']
        if ft: return ft['errno']
        self.wr(r, struct.pack('<BxxxI', 0, len(f.preopen))); return 0
    def fd_prestat_dir_name(self, fd, p, n):
        f = self.fds.get(fd & 0xffffffff)
        if f is None or f.preopen is None: return E['BADF']
        self.wr(p, f.preopen[:n]); return 0
    def fd_readdir(self, fd, p, n, cookie, r):
        ft = self.fault('fd_readdir', fd)
        f = self.fds.get(fd & 0xffffffff)
        if f is None: return E['BADF']
        if f.node.kind != 'dir': return E['NOTDIR']
        if ft: return ft['errno']
        ents = list(f.node.ents.items())
        ck = getattr(self, 'cookie_map', None) or (lambda i: i)
        inv = {ck(i): i for i in range(len(ents) + 1)}
        start = inv.get(cookie & (2**64 - 1), None)
        if start is None: return E['INVAL']
        out = b''
        for i in range(start, len(ents)):
            name, node = ents[i]
            out += struct.pack('<QQIBxxx', ck(i + 1), node.ino, len(name), self.ftype(node)) + name
            if len(out) >= n: break
        out = out[:n]
        self.wr(p, out); self.w32(r, len(out)); return 0
    def fd_renumber(self, a, b):
        if a not in self.fds: return E['BADF']
        self.fds[b] = self.fds.pop(a); return 0

    def path_open(self, dfd, dfl, p, n, ofl, rb, ri, ffl, r):
        path = self.rd(p, n)
        ft = self.fault('path_open')
        if ft: return ft['errno']
        node, _, e = self.walk(dfd, path, follow=bool(dfl & 1))
        if e == E['NOENT'] and ofl & 1:
            par, name, e2 = self.walk(dfd, path, parent=True, follow=bool(dfl & 1))
            if e2: return e2
            if par.kind != 'dir': return E['NOTDIR']
            if name in (b'.', b'..'): return E['EXIST']
            if name in par.ents: return E['NOENT']
            node = Node('file'); par.ents[name] = node
        elif e: return e
        else:
            if ofl & 1 and ofl & 4: return E['EXIST']
        if ofl & 2 and node.kind != 'dir': return E['NOTDIR']
        if node.kind == 'link': return E['LOOP']
        if node.kind == 'dir' and rb & (1 << 6): return E['ISDIR']
        if ofl & 8 and node.kind == 'file': del node.data[:]
        fd = 3
        while fd in self.fds: fd += 1
        self.fds[fd] = Fd(node, ffl, 0, rights=rb & (2**64 - 1))
        self.w32(r, fd); return 0
    def path_filestat_get(self, dfd, fl, p, n, r):
        path = self.rd(p, n)
        ft = self.fault('path_filestat_get')
        if ft: return ft['errno']
        node, _, e = self.walk(dfd, path, follow=bool(fl & 1))
        if e: return e
        self._fst(node, r); return 0
    def path_filestat_set_times(self, dfd, fl, p, n, a, m, ff):
        ft = self.fault('path_filestat_set_times')
        if ft: return ft['errno']
        node, _, e = self.walk(dfd, self.rd(p, n), follow=bool(fl & 1))
        if e: return e
        node.atim, node.mtim = a, m; return 0
    def path_create_directory(self, dfd, p, n):
        ft = self.fault('path_create_directory')
        if ft: return ft['errno']
        par, name, e = self.walk(dfd, self.rd(p, n), parent=True)
        if e: return e
        if name in par.ents or name in (b'.',): return E['EXIST']
        par.ents[name] = Node('dir'); return 0
    def path_remove_directory(self, dfd, p, n):
        ft = self.fault('path_remove_directory')
        if ft: return ft['errno']
        par, name, e = self.walk(dfd, self.rd(p, n), parent=True)
        if e: return e
        nd = par.ents.get(name)
        if nd is None: return E['NOENT']
        if nd.kind != 'dir': return E['NOTDIR']
        if nd.ents: return E['NOTEMPTY']
        del par.ents[name]; return 0
    def path_unlink_file(self, dfd, p, n):
        ft = self.fault('path_unlink_file')
        if ft: return ft['errno']
        par, name, e = self.walk(dfd, self.rd(p, n), parent=True)
        if e: return e
        nd = par.ents.get(name)
        if nd is None: return E['NOENT']
        if nd.kind == 'dir': return E['ISDIR']
        nd.nlink -= 1
        del par.ents[name]; return 0
    def path_rename(self, f1, p1, n1, f2, p2, n2):
        ft = self.fault('path_rename')
        if ft: return ft['errno']
        a, an, e = self.walk(f1, self.rd(p1, n1), parent=True)
        if e: return e
        b, bn, e = self.walk(f2, self.rd(p2, n2), parent=True)
        if e: return e
        if an not in a.ents: return E['NOENT']
        b.ents[bn] = a.ents.pop(an); return 0
    def path_link(self, f1, fl, p1, n1, f2, p2, n2):
        ft = self.fault('path_link')
        if ft: return ft['errno']
        a, _, e = self.walk(f1, self.rd(p1, n1), follow=bool(fl & 1))
        if e: return e
        b, bn, e = self.walk(f2, self.rd(p2, n2), parent=True)
        if e: return e
        if bn in b.ents: return E['EXIST']
        a.nlink += 1
        b.ents[bn] = a; return 0
    def path_symlink(self, p1, n1, f2, p2, n2):
        ft = self.fault('path_symlink')
        if ft: return ft['errno']
        b, bn, e = self.walk(f2, self.rd(p2, n2), parent=True)
        if e: return e
        if bn in b.ents: return E['EXIST']
        b.ents[bn] = Node('link', target=self.rd(p1, n1)); return 0
    def path_readlink(self, fd, p, n, buf, bl, r):
        ft = self.fault('path_readlink')
        if ft: return ft['errno']
        node, _, e = self.walk(fd, self.rd(p, n), follow=False)
        if e: return e
        if node.kind != 'link': return E['INVAL']
        t = node.target[:bl]; self.wr(buf, t); self.w32(r, len(t)); return 0

    # arguments of path calls that are (pointer, length) pairs, for the log
    PATHARGS = dict(path_open=[(2, 3)], path_filestat_get=[(2, 3)], path_filestat_set_times=[(2, 3)],
                    path_create_directory=[(1, 2)], path_remove_directory=[(1, 2)], path_unlink_file=[(1, 2)],
                    path_rename=[(1, 2), (4, 5)], path_link=[(2, 3), (5, 6)], path_symlink=[(0, 1), (3, 4)],
                    path_readlink=[(1, 2)])
    def call(self, name, args):
        ent = None
        if self.log_io:
            ent = dict(call=name, args=list(args))
            if name in self.PATHARGS:
                ent['paths'] = [self.rd(args[i], args[j]) for i, j in self.PATHARGS[name]]
            if name in ('fd_write', 'fd_pwrite'):
                ent['data'] = b''.join(self.rd(a, l) for a, l in self.iovs(args[1], args[2]))
            self.log.append(ent)
        fn = getattr(self, name, None)
        r = E['NOSYS'] if fn is None else fn(*args)
        if ent is not None: ent['ret'] = r
        return r

_engine = None
def engine():
    global _engine
    if _engine is None:
        c = w.Config(); c.consume_fuel = True
        c.cranelift_opt_level = 'none'
        c.parallel_compilation = False
        _engine = w.Engine(c)
    return _engine

class Result:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return repr(self.__dict__)

_modcache = {}
def load(wasm):
    """Compile a module (bytes); raises wasmtime errors on an invalid module."""
    m = _modcache.get(wasm)
    if m is None:
        if len(_modcache) > 8: _modcache.clear()
        m = _modcache[wasm] = w.Module(engine(), wasm)
    return m

def run(wasm, host=None, fuel=2_000_000_000, limit=None):
    """Run `wasm` (bytes). Result.status: 'exit' (code), 'return', 'trap' (msg), 'invalid' (msg), 'fuel'."""
    host = host or Host()
    try:
        mod = load(wasm)
    except w.WasmtimeError as e:
        return Result(status='invalid', code=None, msg=str(e), out=b'', err=b'', host=host, log=host.log)
    store = w.Store(engine()); store.set_fuel(fuel)
    if limit: store.set_limits(memory_size=limit)
    linker = w.Linker(engine())
    exc = []
    seen = set()
    for imp in mod.imports:
        if (imp.module, imp.name) in seen: continue
        seen.add((imp.module, imp.name))
        ty = imp.type
        if not isinstance(ty, w.FuncType): continue
        def mk(name, nres):
            def f(*a):
                try:
                    r = host.call(name, a)
                    return r if nres else None
                except Exception as e:
                    exc.append(e); raise
            return f
        linker.define_func(imp.module, imp.name, ty, mk(imp.name, len(ty.results)))
    status, code, msg = 'return', 0, ''
    try:
        inst = linker.instantiate(store, mod)
        ex = inst.exports(store)
        host.store = store; host.mem = ex['memory']
        ex['_start'](store)
    except ProcExit as e:
        status, code = 'exit', e.code
    except (w.Trap, w.WasmtimeError) as e:
        if exc and isinstance(exc[-1], ProcExit): status, code = 'exit', exc[-1].code
        elif exc and not isinstance(exc[-1], (w.WasmtimeError, RuntimeError, IndexError, OverflowError, struct.error, MemoryError)): raise exc[-1]
        elif exc: status, code, msg = 'trap', None, 'host call with invalid arguments: %r' % exc[-1]
        else:
            msg = str(e)
            status = 'fuel' if 'fuel' in msg else 'trap'
            code = None
    except KeyError as e:
        status, msg, code = 'invalid', 'missing export %s' % e, None
    return Result(status=status, code=code, msg=msg, out=bytes(host.out), err=bytes(host.err), host=host, log=host.log)
