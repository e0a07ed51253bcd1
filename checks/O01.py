"""O01: optimisation level and compilation route never change behaviour; output is reproducible."""
import os, hashlib, random
from wv import check, cgen as g, lang, build, host, tlc
from checks import E01, E03, F01, F02, D01, D02
TECHNIQUE = 'TLA+ build-route machine (Build) enumerates routes; TLC checks every observation of every route against the CLang reference semantics (Routes)'
NOTE = 'Programs of the language checks, split into up to 3 modules, built by routes TLC enumerates (levels 0-3, objects or sources, any order, binary or text executable).'
class Grab:
    """collects the programs another check would validate"""
    def __enter__(self): self.u = []; self.old = lang.validate; lang.validate = lambda c, units, *a, **k: self.u.extend(units); return self
    def __exit__(self, *a): lang.validate = self.old
EVH = '#pragma once\n#pragma module "evt"\n#include <unistd.h>\n#include <stdarg.h>\n#include <stddef.h>\n' + '''extern void fl_(void);
extern void ev_(int c, unsigned long long v);
extern void d_(void *p, int n);
extern void z_(void *p, int n);
extern int p_(int id, int v);
extern unsigned long long ib_[64];
extern int rd_(int n);
extern int spv_(void);
extern unsigned char tb_[256];
extern int tn_;
extern int ti_;
extern void fin_(void);
extern int t_(void);
'''
def macros(): return ''.join(x + '\n' for x in g.PRELUDE.splitlines() if x.startswith('#define'))
def evt():
    b = '\n'.join(x for x in g.PRELUDE.splitlines() if not x.startswith('#'))
    for n in ('fl_', 'ev_', 'd_', 'z_', 'p_', 'rd_', 'spv_', 'fin_', 't_'): b = b.replace('static void %s(' % n, 'void %s(' % n).replace('static int %s(' % n, 'int %s(' % n)
    b = b.replace('static unsigned long long ib_', 'unsigned long long ib_').replace('static unsigned char tb_', 'unsigned char tb_').replace('static int tn_', 'int tn_').replace('static int ti_', 'int ti_')
    return '#include "evt.h"\n' + b
def parts(u, rng, n):
    """the unit's program as modules: name -> text, and headers"""
    p = u.prog
    if n == 1: return {'prog': u.source()}, {}
    ms = ['prog'] + ['q%d' % i for i in range(1, n)]
    hd = {'evt': EVH + macros(), 'types': '#pragma once\n#pragma module "types"\n' + ''.join('%s %s {\n%s};\n' % ('union' if t.startswith('U') else 'struct', t, ''.join('  %s;\n' % g.decl(f['t'], f['n']) for f in fs)) for t, fs in p['tags'].items() if t != '_')}
    own = {x: rng.choice(ms) for x in p['order']}; gown = {x['n']: rng.choice(ms) for x in p['globals']}
    for m in ms:
        hd[m] = '#pragma once\n#pragma module "%s"\n#include "evt.h"\n#include "types.h"\n' % m + ''.join('extern %s;\n' % g.decl(x['t'], x['n']) for x in p['globals'] if gown[x['n']] == m) + ''.join('extern %s;\n' % proto(p, n_) for n_ in p['order'] if own[n_] == m)
    src = u.source(); i = src.index('static void cp_('); j = src.index('static void init_(')
    tail = src[j:]
    tx = {'evt': evt()}
    for m in ms:
        t = u.extra + ''.join('#include "%s.h"\n' % x for x in ms)
        for x in p['globals']:
            if gown[x['n']] == m: t += '%s%s;\n' % (g.decl(x['t'], x['n']), ' = ' + lang.scal(x) if x['t'][0] in g.W else '')
        if m == 'prog':
            t += ''.join('static unsigned char sv_%s[sizeof(%s)];\n' % (x['n'], g.ctype(x['t'])) for x in p['globals'] if x['t'][0] not in g.W)
            t += src[i:].split('\n', 1)[0] + '\n'
        for n_ in p['order']:
            if own[n_] == m:
                f = lang.f_text(n_, p['funs'][n_]); t += f[7:] if f.startswith('static ') else f
        if m == 'prog': t += tail
        tx[m] = t
    return tx, hd
def proto(p, n):
    s = g.cproto(n, p['funs'][n]); return s[7:] if s.startswith('static ') else s
def job(a):
    tool, u, d, name, seed, routes, n = a
    r = random.Random(seed); w = os.path.join(d, name); os.makedirs(w)
    tx, hd = parts(u, r, n)
    for h in hd: open('%s/%s.h' % (w, h), 'w').write(hd[h])
    for m in tx: open('%s/%s.c' % (w, m), 'w').write(tx[m])
    names = [m for m in tx if m != 'evt']; out = []; twice = []
    I = ['-I', w + '/']
    for k, rt in enumerate(routes):
        files = {}
        for m, f in zip(names, rt['form']):
            if f['obj']:
                o = '%s/%s_%d.%s' % (w, m, k, r.choice(['o', 'wo', 'wat']))
                rc, so, se = tool.obj('%s/%s.c' % (w, m), o, I + ['-O', str(f['lvl'])])
                if rc: return dict(fail='%s -c -O%d: %s' % (m, f['lvl'], (so + se).decode(errors='replace')[-300:]), tx=tx, hd=hd)
                if k == 0 or r.random() < .2:
                    o2 = o + '2'; tool.obj('%s/%s.c' % (w, m), o2, I + ['-O', str(f['lvl'])])
                    twice.append(dict(a=hashlib.sha1(open(o, 'rb').read()).hexdigest(), b=hashlib.sha1(open(o2, 'rb').read()).hexdigest() if os.path.exists(o2) else '', what='object %s' % m))
                files[m] = o
            else: files[m] = '%s/%s.c' % (w, m)
        fs = [files[names[j - 1]] for j in rt['order']]
        if n > 1: fs.insert(r.randint(0, len(fs)), w + '/evt.c')
        opts = ['-O', str(rt['lvl'])] + (['-s', '65536'] if r.random() < .2 else [])
        x = '%s/x%d.%s' % (w, k, rt['kind'])
        rc, so, se = tool.link(fs, x, opts + I)
        if rc: return dict(fail='link %s: %s' % (rt, (so + se).decode(errors='replace')[-300:]), tx=tx, hd=hd)
        if k == 0 or r.random() < .2:
            x2 = '%s/y%d.%s' % (w, k, rt['kind']); tool.link(fs, x2, opts + I)
            twice.append(dict(a=hashlib.sha1(open(x, 'rb').read()).hexdigest(), b=hashlib.sha1(open(x2, 'rb').read()).hexdigest() if os.path.exists(x2) else '', what='executable'))
        b = open(x, 'rb').read()
        if rt['kind'] == 'wat':
            import wasmtime
            try: b = bytes(wasmtime.wat2wasm(b))
            except Exception as e: return dict(fail='textual executable of %s is not valid: %s' % (rt, str(e)[:300]), tx=tx, hd=hd)
        obs = lang.execute(b, u)
        if obs and obs[-1]['msg'].startswith('invalid'): return dict(fail='invalid module by %s: %s' % (rt, obs[-1]['msg']), tx=tx, hd=hd)
        out.append(obs)
    return dict(obs=out, twice=twice, tx=tx, hd=hd)
def batch(c, units, routes, part):
    d = build.scratch('wvo01-'); jobs = []
    for k, u in enumerate(units):
        n = c.rng.choice([1, 1, 2, 2, 3]); rs = c.rng.sample(routes[n], c.n(6, 12))
        b = next((r for r in routes[n] if r['kind'] == 'wasm' and r['lvl'] == 0 and all(not f['obj'] for f in r['form'])))
        jobs.append((c.tool(), u, d, 'p%04d' % k, c.rng.randrange(1 << 30), [b] + rs, n))
    res = lang.pmap(job, jobs); items = []; idx = []
    for u, j, r in zip(units, jobs, res):
        if 'fail' in r: c.violation('%s:build' % part, r['fail'], dict(sources=r['tx'], headers=r['hd'])); continue
        runs = []
        for q, (f, a, t) in enumerate(u.runs):
            tr = []; who = []
            for k, o in enumerate(r['obs']):
                x = dict(ev=o[q]['ev'], trap=o[q]['trap']) if q < len(o) else dict(ev=[], trap=True)
                if x not in tr: tr.append(x); who.append([])
                who[tr.index(x)].append(k)
            runs.append(dict(f=f, args=[g.clean(g.lit(v, p['t'][0])) for v, p in zip(a, u.prog['funs'][f]['ps'])], tape=list(t or []), traces=tr, _who=who))
        items.append(dict(P=g.clean(u.prog), runs=g.clean(runs), twice=r['twice'])); idx.append((u, j, r, runs))
    if not items: return
    t = c.tlc('Routes', 'INIT RInit\nNEXT RNext\nCHECK_DEADLOCK FALSE\n', data=dict(data=items), heap='12g', timeout=800)
    total = sum(len(x['runs']) + 1 for x in items)
    if t.distinct != total + len(items): raise tlc.ModelError('TLC processed %d of %d' % (t.distinct - len(items), total))
    skip = 0
    for x in t.prints:
        u, j, r, runs = idx[x['i'] - 1]
        if x['why'] == 'undefined': skip += 1; continue
        if x['why'] == 'differs':
            q = [y for y in r['twice'] if y['a'] != y['b']]; c.violation('twice', 'building twice gives different output: %s' % q[0]['what'], dict(sources=r['tx'], headers=r['hd'], twice=q)); continue
        run = runs[x['run'] - 1]; rt = [j[5][k] for k in run['_who'][x['t'] - 1]]
        c.violation('route', 'run of %s%s differs from the specified behaviour when built by %s (%d of %d routes)' % (run['f'], u.runs[x['run'] - 1][1], rt[0], len(rt), len(j[5])),
                    dict(sources=r['tx'], headers=r['hd'], routes=rt, traces=run['traces'], run=u.runs[x['run'] - 1]))
    c.traces += sum(len(x['runs']) for x in items)
    c.part(part, programs=len(items), runs=sum(len(x['runs']) for x in items), builds=sum(len(j[5]) for j in jobs), rebuilt_twice=sum(len(r.get('twice', [])) for r in res), skipped=skip, tlc_s=round(t.wall, 1))
def run(c):
    routes = {}
    for n in (1, 2, 3):
        t = c.tlc('Build', 'CONSTANTS N = %d Levels = {%s}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % (n, '0, 1, 2, 3' if n < 3 else '0, 2, 3'), heap='4g')
        routes[n] = sorted(t.prints, key=lambda x: str(sorted(x.items(), key=str)))
    c.part('routes', **{'modules%d' % n: len(routes[n]) for n in routes})
    with Grab() as G:
        for k in range(c.n(1, 6)):
            E01.trees(c, c.n(8, 30), 12, 4)
            G.u += E03.trees(c, c.n(10, 40), 10, 4) + F01.switches(c, c.n(8, 30)) + F01.counted(c, c.n(10, 40)) + F02.units(c, c.n(20, 60)) + D01.units(c, c.n(8, 30))
    us = G.u
    for u in us:
        if len(u.runs) > 24: u.runs = sorted(c.rng.sample(u.runs, 24), key=lambda x: (u.prog['order'].index(x[0])))
    for k in range(0, len(us), 150): batch(c, us[k:k + 150], routes, 'routes %d' % (k // 150))
    for k in range(c.n(1, 8)): D02.batch(c, c.n(180, 300), 'data %d' % k, [(0, 'wasm', 0), (3, 'wasm', 1), (c.rng.choice([1, 2]), 'wat', .5)])
    c.sample(dict(route=routes[2][37], source=us[0].source()[-800:]))
if __name__ == '__main__': check.main('O01', run)
