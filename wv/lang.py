"""Conformance of compiled programs with spec/CLang.tla: compile, run, record, validate with TLC."""
import os, struct, multiprocessing as mp, concurrent.futures
from . import cgen as g, host, build, tlc

MARK = 255

class Unit:
    """A program (g.program) and the runs to make: (function name, argument values, tape or None)."""
    def __init__(self, prog, runs, name='u', extra='', opts=(), typed=True, post=()):
        self.prog = prog; self.runs = runs; self.name = name; self.extra = extra; self.opts = list(opts)
        self.post = list(post)
    def source(self):
        p = self.prog; o = [g.PRELUDE, self.extra]
        for tag, fs in p['tags'].items():
            if tag == '_': continue
            kw = 'union' if tag.startswith('U') else 'struct'
            o.append('%s %s {\n%s};\n' % (kw, tag, ''.join('  %s;\n' % g.decl(f['t'], f['n']) for f in fs)))
        for x in p['globals']:
            if x['t'][0] in g.W:        # the dialect has no address of a global scalar
                o.append('static %s = %s;\n' % (g.decl(x['t'], x['n']), scal(x))); continue
            o.append('static %s;\n' % g.decl(x['t'], x['n']))
            o.append('static unsigned char sv_%s[sizeof(%s)];\n' % (x['n'], x['n']))
        o.append('static void cp_(void *d, void *s, int n) { unsigned char *a = (unsigned char*)d; unsigned char *b = (unsigned char*)s; int i; for (i = 0; i < n; i = i + 1) a[i] = b[i]; }\n')
        for n in p['order']:
            f = p['funs'][n]
            if f.get('_proto'): o.append(g.cproto(n, f) + ';\n')
        for n in p['order']:
            o.append(f_text(n, p['funs'][n]))
        o.append('static void init_(void) {\n')
        for x in p['globals']:
            if x['t'][0] in g.W: continue
            if any(x['b']):
                o.append('  { unsigned char *q = (unsigned char*)(void*)&%s;\n' % x['n'])
                for i, b in enumerate(x['b']):
                    if b: o.append('    q[%d] = (unsigned char)%d;\n' % (i, b))
                o.append('  }\n')
            o.append('  cp_((void*)&sv_%s[0], (void*)&%s, (int)sizeof(%s));\n' % (x['n'], x['n'], x['n']))
        o.append('}\nstatic void reset_(void) {\n')
        for x in p['globals']:
            if x['t'][0] in g.W: o.append('  %s = %s;\n' % (x['n'], scal(x))); continue
            o.append('  cp_((void*)&%s, (void*)&sv_%s[0], (int)sizeof(%s));\n' % (x['n'], x['n'], x['n']))
        o.append('  ti_ = 0; tn_ = 0;\n}\n')
        fs = sorted({r[0] for r in self.runs}, key=p['order'].index)
        o.append('int main(void) {\n  int n;\n  init_();\n  while (rd_(2)) {\n    n = (int)ib_[1];\n    reset_();\n    switch ((int)ib_[0]) {\n')
        for n in fs:
            f = p['funs'][n]
            o.append('      case %d: if (!rd_(%d)) _exit(98); if (n > 0) { int i; unsigned long long sv[8]; for (i = 0; i < 8; i = i + 1) sv[i] = ib_[i]; while (tn_ < n) { rd_(1); tb_[tn_] = (unsigned char)ib_[0]; tn_ = tn_ + 1; } for (i = 0; i < 8; i = i + 1) ib_[i] = sv[i]; }\n'
                     % (p['order'].index(n), len(f['ps'])))
            o.append('        %s(%s); break;\n' % (n, ', '.join(arg(q['t'], i) for i, q in enumerate(f['ps']))))
        o.append('    }\n    ev_(255, 0ULL);\n    fl_();\n  }\n  return 0;\n}\n')
        return ''.join(o)
    def stdin(self, runs):
        b = []
        for f, a, t in runs:
            b += [self.prog['order'].index(f), len(t or [])] + [x & (2**64 - 1) for x in a] + list(t or [])
        return struct.pack('<%dQ' % len(b), *b)

def scal(x):
    return g.litc(g.wrap(int.from_bytes(bytes(x['b']), 'little'), x['t'][0]), x['t'][0])
def f_text(n, f): return f.get('_pre', '') + (f['_text'] if '_text' in f else g.cfunc(n, f))
def arg(t, i):
    return '(%s)ib_[%d]' % (g.ctype(t), i)

def split(out):
    """event runs separated by markers; the last element is the unterminated rest"""
    runs, cur = [], []
    for c, b in g.events(out):
        if c == MARK: runs.append(cur); cur = []
        else: cur.append(g.pack(c, b))
    return runs, cur

def execute(wasm, unit, fuel=400_000_000):
    """observations per run: dict(ev, trap, msg)"""
    obs = []
    runs = unit.runs
    if any(t is not None for _, _, t in runs):
        for r in runs:
            res = host.run(wasm, host.Host(stdin=unit.stdin([r]), log_io=False), fuel)
            done, cur = split(res.out)
            ok = res.status in ('exit', 'return') and res.code == 0
            obs.append(dict(ev=done[0] if done else cur, trap=not ok, msg='' if ok else '%s %s %s' % (res.status, res.code, res.msg[-300:])))
            if res.status == 'invalid': break
        return obs
    i = 0
    while i < len(runs):
        res = host.run(wasm, host.Host(stdin=unit.stdin(runs[i:]), log_io=False), fuel)
        done, cur = split(res.out)
        obs += [dict(ev=e, trap=False, msg='') for e in done]
        i += len(done)
        ok = res.status in ('exit', 'return') and res.code == 0
        if i < len(runs):
            obs.append(dict(ev=cur, trap=True, msg='%s %s %s' % (res.status, res.code, res.msg[-300:]))); i += 1
            if res.status == 'invalid': break
        elif not ok:
            obs[-1]['trap'] = True; obs[-1]['msg'] = '%s %s %s' % (res.status, res.code, res.msg[-300:])
    return obs

def _job(a):
    tool, unit, d = a
    src = os.path.join(d, unit.name + '.c'); out = os.path.join(d, unit.name + '.wasm')
    open(src, 'w').write(unit.source())
    rc, so, se = tool.link([src], out, unit.opts)
    if rc or not os.path.exists(out):
        return dict(fail='compile', msg=(so + se).decode(errors='replace')[-600:], rc=rc, src=src)
    wasm = open(out, 'rb').read(); os.unlink(out)
    obs = execute(wasm, unit)
    if obs and obs[-1]['msg'].startswith('invalid'):
        return dict(fail='invalid module', msg=obs[-1]['msg'], rc=0, src=src)
    return dict(obs=obs, src=src)

def pmap(fn, jobs, procs=8):
    if len(jobs) <= 1: return [fn(j) for j in jobs]
    with concurrent.futures.ProcessPoolExecutor(procs, mp_context=mp.get_context('fork')) as p: return list(p.map(fn, jobs, chunksize=1))

def validate(c, units, part, spec='CRun', key=None, cfg='INIT Init\nNEXT Next\n', heap='12g', timeout=800, constants=''):
    """Compile and run every unit, have TLC check the recorded events.  Returns (runs checked, skipped)."""
    d = build.scratch('wvlang-')
    for k, u in enumerate(units): u.name = 'u%04d' % k
    res = pmap(_job, [(c.tool(), u, d) for u in units])
    items, idx = [], []
    for u, r in zip(units, res):
        if 'fail' in r:
            c.violation('%s:%s:%s' % (part, u.name, r['fail']), 'valid program not compiled (%s): %s' % (r['fail'], r['msg'].strip()[-300:]),
                        dict(source=open(r['src']).read(), rc=r['rc'], msg=r['msg'], opts=u.opts))
            continue
        rs = [dict(f=f, args=[g.clean(g.lit(v, p['t'][0])) for v, p in zip(a, u.prog['funs'][f]['ps'])],
                   tape=list(t or []), ev=o['ev'], trap=o['trap'])
              for (f, a, t), o in zip(u.runs, r['obs'])]
        items.append(dict(P=g.clean(u.prog), runs=rs)); idx.append((u, r))
    if not items: return 0, 0
    t = c.tlc(spec, constants + cfg + 'CHECK_DEADLOCK FALSE\n', data=dict(data=items), heap=heap, timeout=timeout)
    skip = 0
    for p in t.prints:
        u, r = idx[p['i'] - 1]
        if 'skip' in p: skip += 1; continue
        f, a, tp = u.runs[p['reject'] - 1]; o = r['obs'][p['reject'] - 1]
        k = key(u, f, a, tp) if key else '%s:%s:%s' % (part, u.name, f)
        c.violation(k, 'run of %s(%s)%s: event %d expected %s observed %s%s' % (f, ', '.join(map(str, a)),
                    ' tape %s' % tp if tp else '', p['at'], p['exp'], p['obs'], ' [%s]' % o['msg'] if o['msg'] else ''),
                    dict(function=g.cfunc(f, u.prog['funs'][f]) if '_text' not in u.prog['funs'][f] else u.prog['funs'][f]['_text'], args=a, tape=tp, source=u.source(), opts=u.opts,
                         expected=p['exp'], observed=p['obs'], at=p['at'], stdin=u.stdin([u.runs[p['reject'] - 1]]).hex()))
    total = sum(len(x['runs']) for x in items)
    if t.distinct != total + len(items): raise tlc.ModelError('TLC processed %d of %d runs' % (t.distinct - len(items), total))
    c.traces += total - skip
    c.part(part, programs=len(units), runs=total, undefined_runs_skipped=skip, tlc_s=round(t.wall, 1))
    return total, skip
