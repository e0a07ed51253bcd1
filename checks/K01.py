"""K01: linking resolves every reference to its one definition or fails."""
import os, struct
from wv import check, cgen as g, lang, build, host, tlc
TECHNIQUE = 'TLA+ model of linking (Link): the worklist linker is model-checked over all small module graphs (LinkMC); TLC judges recorded links and runs of generated module graphs (LinkTrace)'
NOTE = 'Graphs of up to 6 modules with calls, addresses, variables, data pointers; sources, objects and library modules in any order; one injected defect in half of them.'
KINDS = {'f': 'func', 'v': 'scal', 'p': 'scal', 'a': 'data', 's': 'data'}
DECL = {'f': 'int %s(int d)', 'v': 'int %s', 'p': 'int (*%s)(int)', 'a': 'int %s[3]', 's': 'struct S_ %s'}
def D(id, cls, static=False): return dict(id=id, cls=cls, static=static, refs=[], tag=0, val=[0, 0, 0])
class Mod:
    def __init__(self, n, file=None): self.n = n; self.file = file or n; self.defs = []; self.inc = []; self.main = None; self.decl = None; self.order = 'hdr'
    def all(self): return self.defs + ([self.main] if self.main else [])
class Graph:
    """modules, their definitions and references; rank order keeps executed calls acyclic"""
    def __init__(self, rng):
        self.rng = r = rng; n = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        names = r.sample(['prog', 'a', 'b', 'mod', 'zz', 'stdx', 'm1', 'm2', 'libm', 'a_b', 'main_', 'crt2'], n)
        self.mods = [Mod(x) for x in names]
        pool = ['%s%d' % (c, k) for c in 'fffvvpas' for k in range(5)]
        for m in self.mods:
            ids = list(dict.fromkeys(r.sample(pool, r.choice([2, 4, 5]))))
            m.defs = [D(x, x[0], r.random() < .4) for x in ids]
        # includes: no two visible names may clash
        for m in self.mods:
            vis = {d['id'] for d in m.defs}
            for o in r.sample(self.mods, len(self.mods)):
                e = {d['id'] for d in o.defs if not d['static']}
                if o is not m and r.random() < .85 and not (e & vis): m.inc.append(o); vis |= e
        m = r.choice(self.mods); m.main = D('main', 'm')
        self.mainmod = m
        tag = 100
        for m in self.mods:
            for d in m.all():
                tag += 1; d['tag'] = tag
                d['val'] = [r.randrange(1, 90) for _ in range(3)]
        funcs = [(m, d) for m in self.mods for d in m.all() if d['cls'] in 'fm']
        r.shuffle(funcs); self.rank = {id(d): k for k, (m, d) in enumerate(funcs)}
        if self.mainmod.main: self.rank[id(self.mainmod.main)] = -1
        # data first: pointers in data and function pointer variables
        for m in self.mods:
            for d in m.defs:
                if d['cls'] == 's':
                    c = self.visible(m, 'a', d)
                    if not c: d['cls'] = 'a'; continue
                if d['cls'] == 'p' and not self.visible(m, 'f', d): d['cls'] = 'v'
        for m in self.mods:
            for d in m.defs:
                if d['cls'] in 'sp': d['refs'] = [self.ref(r.choice(self.visible(m, 'a' if d['cls'] == 's' else 'f', d)), 'init')]
        self.cost = {}
        for m, d in sorted(funcs, key=lambda x: -self.rank[id(x[1])]):
            c = 1
            for _ in range(r.choice([0, 1, 2, 3, 4]) if d['cls'] == 'f' else r.choice([3, 4, 6, 8])):
                x = self.pick(m, d)
                if x is None: continue
                ref, k = x
                if c + k > (300 if d['cls'] == 'm' else 60): ref['how'] = 'never'; k = 0
                c += k; d['refs'].append(ref)
            self.cost[id(d)] = c
    def visible(self, m, cls, me=None):
        return [(m, d) for d in m.defs if d['cls'] == cls] + [(o, d) for o in m.inc for d in o.defs if d['cls'] == cls and not d['static']]
    def ref(self, t, how, k=1, t2=None):
        m, d = t
        return dict(m=m.n, id=d['id'], kind=KINDS[d['cls']], how=how, k=k, m2=t2[0].n if t2 else '', id2=t2[1]['id'] if t2 else '', _cls=d['cls'])
    def pick(self, m, d):
        r = self.rng; cls = r.choice('fffvpas'); c = self.visible(m, cls)
        if not c: return None
        t = r.choice(c)
        if cls == 'f':
            if r.random() < .15: return self.ref(t, 'same', 1, r.choice([t, r.choice(c)])), 1
            if self.rank[id(t[1])] <= self.rank[id(d)]: return self.ref(t, 'never'), 0
            return self.ref(t, r.choice(['call', 'call', 'ptr'])), self.cost[id(t[1])]
        if cls == 'p':
            q = t[1]['refs'][0]; f = next(x for o in self.mods if o.n == q['m'] for x in o.defs if x['id'] == q['id'])
            if self.rank[id(f)] <= self.rank[id(d)]: return self.ref(t, 'never'), 0
            return self.ref(t, 'fp'), self.cost[id(f)]
        if cls == 'v': return self.ref(t, 'scal', r.choice([1, 3, 7])), 1
        if cls == 'a': return self.ref(t, 'data', r.randint(1, 3)), 1
        return self.ref(t, 'deref'), 1
PRE = '''#include <unistd.h>
static void e_(int v) { int b[1]; b[0] = v; write(1, (void*)&b[0], (size_t)4); }
static int nv_(int d) { return d > 1000; }
'''
def use(r):
    """statements performing a reference"""
    n, h = r['id'], r['how']
    if h == 'call': return '  x = %s(d + 1);\n' % n
    if h == 'ptr': return '  { int (*q)(int) = &%s; x = (*q)(d + 1); }\n' % n
    if h == 'fp': return '  x = (*%s)(d + 1);\n' % n
    if h == 'scal': return '  e_(%s); %s = %s + %d;\n' % (n, n, n, r['k'])
    if h == 'data': return '  e_(%s[%d]); %s[%d] = %s[%d] + 1;\n' % (n, r['k'] - 1, n, r['k'] - 1, n, r['k'] - 1)
    if h == 'deref': return '  { int *q = %s.p; e_(*q); *q = *q + 2; }\n' % n
    if h == 'same': return '  { int (*q)(int) = &%s; int (*s)(int) = &%s; e_((int)(q == s)); }\n' % (n, r['id2'])
    if h == 'none': return ''
    c = r['_cls']
    return '  if (nv_(d)) { %s }\n' % {'f': 'x = %s(d + 1);' % n, 'p': 'x = (*%s)(1);' % n, 'v': 'e_(%s);' % n, 'a': 'e_(%s[0]);' % n, 's': 'e_(%s.a[0]);' % n}[c]
def value(d):
    c, v = d['cls'], d['val']
    if c == 'v': return '%d' % v[0]
    if c == 'a': return '{ %d, %d, %d }' % tuple(v)
    if c == 's': return '{ { %d, %d }, &%s[0] }' % (v[0], v[1], d['refs'][0]['id'])
    return '&%s' % d['refs'][0]['id']
def header(m, hide=()):
    """the interface as other modules see it; m.decl overrides (id -> class) where it lies"""
    o = '#pragma once\n#pragma module "%s"\n#include "s_.h"\n' % m.n
    dc = m.decl if m.decl is not None else {d['id']: d['cls'] for d in m.defs if not d['static']}
    return o + ''.join('extern %s;\n' % (DECL[c] % i) for i, c in dc.items())
def source(rng, m, own=True):
    t = '#include "s_.h"\n'
    if m.decl is None and own: t += '#include "%s.h"\n' % m.n
    t += ''.join('#include "%s.h"\n' % o.n for o in m.inc) + PRE
    defs = m.defs[:]; rng.shuffle(defs)
    # forward declarations of everything referred to by address or call
    for d in defs:
        if d['cls'] == 'f': t += '%s%s;\n' % ('static ' if d['static'] else '', DECL['f'] % d['id'])
    order = [d for d in defs if d['cls'] == 'a'] + [d for d in defs if d['cls'] in 'vsp'] + [d for d in defs if d['cls'] == 'f']
    for d in order:
        s = 'static ' if d['static'] else ''
        if d['cls'] == 'f': t += '%sint %s(int d) {\n  int x = 0;\n  e_(%d);\n%s  return x;\n}\n' % (s, d['id'], d['tag'], ''.join(map(use, d['refs'])))
        else: t += '%s%s = %s;\n' % (s, DECL[d['cls']] % d['id'], value(d))
    if m.main:
        d = m.main
        t += 'int main(%s) {\n  int x = 0; int d = 0;\n  e_(%d);\n%s  return 0;\n}\n' % (m.mainargs, d['tag'], ''.join(map(use, d['refs'])))
    return t
def model(m):
    ds = [dict(id=d['id'], kind=KINDS.get(d['cls'], 'func'), tag=d['tag'], val=d['val'], refs=g.clean(d['refs'])) for d in m.all()]
    imp = sorted({x for d in ds for r in d['refs'] for x in (r['m'], r['m2']) if x and x != m.n} | set(getattr(m, 'extra', ())))
    return dict(n=m.n, main=bool(m.main), imp=imp, defs=ds)
class Case:
    def __init__(self, rng):
        r = rng; G = Graph(rng); self.G = G
        for m in G.mods: m.mainargs = r.choice(['void', 'int argc, char **argv'])
        G.mainmod.inc = list(G.mainmod.inc)
        self.lib = []; self.given = []
        for m in G.mods: (self.lib if m is not G.mainmod and r.random() < .35 else self.given).append(m)
        self.fault = 'none'
        if r.random() < .5: self.inject(r)
        r.shuffle(self.given)
        self.how = {id(m): r.choice(['c', 'c', 'o', 'wo', 'wat']) for m in self.given + self.lib}
        self.swap = r.random() < .1
    def inject(self, r):
        G = self.G; f = r.choice(['undef', 'undef', 'undef', 'undef', 'undef', 'nomod', 'dup', 'main2', 'nomain', 'libmain', 'kind', 'kind', 'shadow', 'extra']); self.fault = f
        ext = [(m, d) for m in G.mods for d in m.defs if not d['static'] and any(m in o.inc for o in G.mods)]
        used = [(m, d) for m, d in ext if any(q['id'] == d['id'] and q['m'] == m.n for o in G.mods if o is not m for x in o.all() for q in x['refs'])]
        if used and r.random() < .85: ext = used
        if f == 'undef' and ext:          # declared, not defined
            m, d = r.choice(ext); m.decl = {x['id']: x['cls'] for x in m.defs if not x['static']}
            if any(q['id'] == d['id'] and q['m'] == m.n or q['id2'] == d['id'] and q['m2'] == m.n for x in m.all() for q in x['refs']): m.decl = None; return
            m.defs = [x for x in m.defs if x is not d]
        elif f == 'kind' and ext:         # the interface lies about what the name is
            m, d = r.choice(ext)
            if any(q['id'] == d['id'] and q['m'] == m.n or q['id2'] == d['id'] and q['m2'] == m.n for x in m.all() for q in x['refs']): return
            m.decl = {x['id']: x['cls'] for x in m.defs if not x['static']}
            new = r.choice([c for c in 'fva' if KINDS[c] != KINDS[d['cls']]])
            k = next(i for i, x in enumerate(m.defs) if x is d)
            m.defs[k] = dict(D(d['id'], new), tag=d['tag'], val=d['val'])
        elif f == 'nomod':
            c = [m for m in G.mods if m is not G.mainmod]
            if c:
                m = r.choice(c); self.given = [x for x in self.given if x is not m]; self.lib = [x for x in self.lib if x is not m]
        elif f == 'dup':
            m = r.choice(self.given); self.given = self.given + [m]
        elif f == 'main2':
            c = [m for m in self.given if not m.main]
            if c: m = r.choice(c); m.main = dict(D('main', 'm'), tag=999)
        elif f == 'nomain': G.mainmod.main = None
        elif f == 'libmain':
            if self.lib: m = r.choice(self.lib); m.main = dict(D('main', 'm'), tag=999)
        elif f == 'shadow' and len(self.given) > 1:   # a library module of the same name is not used
            m = r.choice([x for x in self.given if not x.main] or self.given)
            x = Mod(m.n); x.defs = [dict(D(d['id'], 'v' if d['cls'] != 'v' else 'a'), tag=5, val=[91, 92, 93]) for d in m.defs]; x.inc = []; x.mainargs = 'void'; x.decoy = True
            self.lib.append(x)
        elif f == 'extra':                # an unrelated incomplete library module is not looked at
            x = Mod('unused'); x.defs = [dict(D('f9', 'f'), tag=6)]; x.mainargs = 'void'; self.lib.append(x)
def job(a):
    tool, c, d, name, seed = a
    import random
    r = random.Random(seed); w = os.path.join(d, name); L = os.path.join(w, 'lib'); os.makedirs(L)
    W = w + '/'; open(W + 's_.h', 'w').write('#pragma once\n#pragma module "s_"\nstruct S_ { int a[2]; int *p; };\n')
    for m in c.G.mods: open(W + m.n + '.h', 'w').write(header(m))
    src = {}; files = []
    for m in c.G.mods + [x for x in c.lib if getattr(x, 'decoy', False) or x.n == 'unused']:
        decoy = m not in c.G.mods
        own = not decoy
        f = os.path.join(L if decoy else w, m.n + '.c'); t = source(r, m, own); open(f, 'w').write(t); src[('lib/' if decoy else '') + m.n] = t
        how = c.how.get(id(m), 'c')
        if m in c.lib and how == 'c': how = 'wo'
        if how != 'c':
            o = os.path.join(L if m in c.lib else w, m.n + '.' + how); rc, so, se = tool.obj(f, o, ['-I', W])
            if rc: return dict(fail='object: ' + (so + se).decode(errors='replace')[-400:], src=src)
        else: o = f
        m.path = o
    files = [m.path for m in c.given]
    if not files: files = [W + 'none.c']; open(files[0], 'w').write('static int f_(void) { return 1; }\n')
    out = W + 'a.wasm'
    args = ['-L', tool.lib, '-L', L + '/'] if not c.swap else ['-L', L + '/', '-L', tool.lib]
    rc, so, se = tool.run(['-q'] + args + ['-I', tool.inc, '-I', W, '-o', out] + files)
    made = os.path.exists(out); ev = []; res = None
    if made and rc == 0:
        res = host.run(open(out, 'rb').read(), host.Host(log_io=False), 20_000_000)
        ev = [x[0] for x in struct.iter_unpack('<i', res.out[:len(res.out) // 4 * 4])]
        if res.status not in ('exit', 'return') or res.code: ev.append(-7)
    return dict(src=src, rc=rc, made=made, said=bool((so + se).strip()), ev=ev, msg=(so + se).decode(errors='replace')[-300:], run=res and '%s %s' % (res.status, (res.msg or '')[-200:]))
def batch(c, n, part, stats):
    d = build.scratch('wvk01-'); cases = [Case(c.rng) for _ in range(n)]
    res = lang.pmap(job, [(c.tool(), x, d, 'p%04d' % i, c.rng.randrange(1 << 30)) for i, x in enumerate(cases)])
    items = []; idx = []
    for x, r in zip(cases, res):
        if 'fail' in r: c.violation('%s:object' % part, 'a well-formed module does not compile: %s' % r['fail'], dict(sources=r['src'])); continue
        given = [model(m) for m in x.given]
        if not given: given = [dict(n='none', main=False, imp=[], defs=[])]
        items.append(dict(given=given, lib=[model(m) for m in x.lib], rc=r['rc'], made=r['made'], said=r['said'], ev=r['ev'])); idx.append((x, r))
    t = c.tlc('LinkTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=items), heap='8g', timeout=600)
    if t.distinct != 2 * len(items): raise tlc.ModelError('TLC processed %d of %d' % (t.distinct, 2 * len(items)))
    for v in t.prints:
        x, r = idx[v['i'] - 1]; stats[v['p'] or 'linked'] = stats.get(v['p'] or 'linked', 0) + 1
        if v['v']: c.violation(v['v'], '%s; injected %s; rc %s; %s %s' % (v['v'], x.fault, r['rc'], r['msg'], r['run']), dict(sources=r['src'], headers={m.n: header(m) for m in x.G.mods}, given=[m.path if hasattr(m, 'path') else m.n for m in x.given], lib=[m.n for m in x.lib], item=items[v['i'] - 1]))
    c.traces += len(items)
    c.part(part, graphs=len(items), modules=sum(len(x.G.mods) for x in cases), events=sum(len(i['ev']) for i in items), outcomes=dict(stats), tlc_s=round(t.wall, 1))
    c.sample(dict(item=items[0]))
def run(c):
    q = 'CONSTANTS Mods = {%s} Ids = {%s} MaxEdges = %d MaxMissing = %d\nINIT Init\nNEXT Next\nINVARIANT Verdict\nINVARIANT Retained\nINVARIANT OnlyReachable\nCHECK_DEADLOCK FALSE\n'
    for ms, ids, e, b in ([('AB', ('main', 'f'), 3, 2)] if not c.thorough else [('AB', ('main', 'f'), 5, 3), ('AB', ('main', 'f', 'g'), 3, 2), ('ABC', ('main', 'f'), 2, 3)]):
        t = c.tlc('LinkMC', q % (', '.join('"%s"' % x for x in ms), ', '.join('"%s"' % x for x in ids), e, b), heap='12g', timeout=3000)
        c.part('worklist %d modules %d names %d references' % (len(ms), len(ids), e), states=t.distinct)
    for k in range(c.n(5, 40)): batch(c, c.n(600, 600), 'graphs %d' % k, {})
if __name__ == '__main__': check.main('K01', run)
