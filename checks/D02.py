"""D02: static data starts with the declared contents at disjoint addresses."""
import os, struct
from wv import check, cgen as g, lang, build, host, tlc
from checks.D01 import G as Lay
from checks.E02 import num, CHARS, WCHARS
TECHNIQUE = 'TLA+ denotation of initialisers and placement rules (StaticData over CLang/Literals); TLC validates address and byte dumps of generated multi-module programs'
NOTE = 'Random types, nested initialisers, strings, addresses, modules, declaration and link orders. Initialisers restricted to forms the dialect accepts.'
SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !#$%&()*+,-./:;<=>@[]^_`{|}~\''
class Gen(Lay):
    """types with initialisers; tags shared by all modules"""
    def __init__(self, rng): super().__init__(rng); self.nm = 0; self.pool = []
    def scalar(self):
        r = self.rng; x = r.random()
        if x < .72: return [r.choice(g.INTS)]
        if x < .80: return [r.choice(['float', 'double'])]
        if x < .92: return g.ptr(['char'])
        return g.ptr(['int']) if x < .96 else g.ptr(self.agg())
    def agg(self):
        t = self.rng.choice(list(self.tags) or ['int']); return ['int'] if t == 'int' else g.un(t) if t[0] == 'U' else g.st(t)
    def ty(self, d):
        r = self.rng
        if r.random() < .12: return g.arr([r.choice(['char', 'uchar', 'char'])], r.choice([1, 2, 4, 7, 12]))
        return super().ty(d)
    def spell(self, wide):
        r = self.rng; parts = []
        for _ in range(1 if r.random() < .85 else r.randint(2, 3)):
            s = ''; hexed = False
            for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
                x = r.random()
                if x < .7 or hexed: c = r.choice('ghijklmnopqrstuvwxyz GHIJK' if hexed else SAFE)
                elif x < .85: c = r.choice(['\\n', '\\t', '\\\\', '\\"', "\\'", '\\?', '\\a', '\\b', '\\f', '\\r', '\\v'])
                elif x < .93: c = '\\x%02x' % r.randrange(256) if r.random() < .6 else '\\%03o' % r.randrange(256)
                elif x < .97: c = r.choice(['\u00e9', '\u20ac', '\U0001f600', '\u03b1'])
                else: c = '\\u%04x' % r.choice([0xe9, 0x20ac, 0x41, 0x7ff, 0x800, 0xffef])
                hexed = c.startswith('\\x') or c == '\\0'
                s += c
            parts.append(s)
        return parts
    def strlen(self, parts, wide):
        """number of elements without the terminator (generator's own count, to fit arrays)"""
        n = 0
        for s in parts:
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == 'x': i += 4; n += 1
                    elif s[i + 1] == 'u': v = int(s[i + 2:i + 6], 16); i += 6; n += 1 if wide else len(chr(v).encode())
                    elif s[i + 1] in '01234567': i += 4; n += 1
                    else: i += 2; n += 1
                else: n += 1 if wide else len(s[i].encode()); i += 1
        return n
    def string(self, wide, maxn=None):
        r = self.rng
        while True:
            p = self.spell(wide); x = r.random()
            if self.pool and x < .2: p = r.choice(self.pool)                     # seen before, perhaps in another width
            elif self.pool and x < .25 and not wide:                             # differs from an earlier one after a zero byte
                q = r.choice(self.pool); p = q[:-1] + [q[-1] + '\\000' + r.choice('ghij')]
            elif x < .3:                                                         # same bytes in both widths
                ch = r.choice('ABCDEFGH'); p = [ch] if wide else [ch + '\\000' * 6]
            if len(self.pool) < 40: self.pool.append(p)
            if maxn is None or self.strlen(p, wide) <= maxn: break
        return dict(k='str', s=[list(x.encode()) for x in p], w=wide, _c=' '.join(('L' if wide else '') + '"%s"' % x for x in p), _n=self.strlen(p, wide))
    def init(self, t, targets, loc=False):
        """initialiser for type t; targets: name -> type of objects whose address may be taken"""
        r = self.rng; k = t[0]
        if k in g.W:
            v = g.rval(r, t[0])
            if r.random() < .15 and t[0] in ('char', 'int', 'short', 'llong'):
                s = r.choice([x for x in CHARS if x not in ("\\x007f",)]); return dict(k='e', e=num(s, 'chr'), _c="'%s'" % s)
            e = g.lit(v, t[0]); c = g.litc(v, t[0])
            if t[0] in ('char', 'uchar', 'short', 'ushort') and r.random() < .6: c = '%d' % v
            return dict(k='e', e=e, _c=c)
        if k in ('float', 'double'):
            return flt(r, k)
        if k == 'ptr':
            c = [n for n, x in targets.items() if g.ptr(x) == t or (not loc and x[0] == 'arr' and g.ptr(x[1]) == t)]
            x = r.random()
            if c and x < .5:
                n = r.choice(c); z = targets[n]
                return dict(k='obj', n=n, _c='&%s' % n.split('.')[-1] if g.ptr(z) == t else '&%s[0]' % n.split('.')[-1])
            if t[1] == ['char'] and x < .9: s = self.string(False); return s
            return dict(k='null', _c=r.choice(['NULL', '0', '((void*)0)']))
        if k == 'arr':
            e = t[1]
            if e[0] in ('char', 'uchar') and r.random() < .6: return self.string(False, t[2])
            if e[0] == 'int' and r.random() < .15: return self.string(True, t[2])
            n = t[2] if r.random() < .6 else r.randint(1, t[2])
            l = [self.init(e, targets, loc) for _ in range(n)]
            return dict(k='list', l=l)
        m = self.tags[t[1]]
        l = [self.init(m[0][1], targets, loc)] if k == 'un' else [self.init(x, targets, loc) for _, x in m]
        return dict(k='list', l=l)
def flt(r, k):
    """a floating constant with its exact bytes"""
    x = r.random()
    if x < .5: b = struct.pack('<f' if k == 'float' else '<d', r.choice([0.0, 1.5, -2.25, 0.5, 1e10, 3.0, -0.0, 65536.125, 0.375]))
    elif x < .7: b = bytes(r.choice([[0, 0, 128, 0], [255, 255, 127, 127], [1, 0, 0, 0], [255, 255, 127, 128], [1, 0, 128, 63]]) if k == 'float' else r.choice([[0, 0, 0, 0, 0, 0, 16, 0], [255] * 6 + [239, 127], [1] + [0] * 7, [255] * 6 + [15, 128], [1] + [0] * 5 + [240, 63]]))
    else:
        n = 4 if k == 'float' else 8; v = float('nan')
        while v != v or v in (float('inf'), float('-inf')):
            b = bytearray(r.randrange(256) for _ in range(n))
            if r.random() < .2: b[-1] &= 128; b[-2] &= 127 if n == 4 else 15      # denormal
            v = struct.unpack('<f' if n == 4 else '<d', b)[0]
    v = struct.unpack('<f' if k == 'float' else '<d', b)[0]
    return dict(k='flt', b=list(b), _c=('%.17g' % v if '.' in '%.17g' % v or 'e' in '%.17g' % v else '%.17g.0' % v) + ('f' if k == 'float' else ''))
def ctext(x):
    return '{ %s }' % ', '.join(map(ctext, x['l'])) if x['k'] == 'list' else x['_c']
def strptrs(G_, path, t, x):
    """C expressions of the pointers initialised with strings, in order"""
    if t[0] == 'ptr': return [(path, x)] if x['k'] == 'str' else []
    if x['k'] != 'list': return []
    if t[0] == 'arr': return [y for i, z in enumerate(x['l']) for y in strptrs(G_, '%s[%d]' % (path, i), t[1], z)]
    m = G_.tags[t[1]]
    return [y for (n, q), z in zip(m, x['l']) for y in strptrs(G_, '%s.%s' % (path, n), q, z)]
NONE = dict(k='none')
class Program:
    def __init__(self, rng, idx):
        self.rng = r = rng; G_ = self.G = Gen(rng); G_.mk(r.randint(2, 5))
        self.mods = ['main'] + ['m%d' % i for i in range(r.choice([0, 0, 1, 2, 3]))]
        self.objs = []; self.lits = []
        shared = {}              # exported objects of library modules
        self.text = {}; self.hdr = {}
        order = self.mods[1:] + ['main']
        for m in order:
            self.module(m, shared)
    def typ(self):
        r = self.rng; G_ = self.G; x = r.random()
        if x < .35: t = r.choice(list(G_.tags)); t = g.un(t) if t[0] == 'U' else g.st(t)
        elif x < .8: t = g.arr(G_.ty(2), r.choice([1, 2, 3, 4]))
        else: t = g.arr([r.choice(['char', 'uchar', 'int'])], r.choice([1, 3, 5, 17, 64]))
        if self.G.size(t) > 400: return g.arr([r.choice(g.INTS)], r.choice([1, 3, 9]))
        return t
    def module(self, m, shared):
        r = self.rng; G_ = self.G; decls = []; dump = []; ext = []
        targets = {n: t for n, t in shared.items()}
        names = ['g%d' % i for i in range(r.randint(2, 8))]
        r.shuffle(names)
        for nm in names:
            scal = r.random() < .25
            exported = m != 'main' and r.random() < .4
            n = '%s.%s' % (m, nm)
            cn = nm
            if exported: cn = 'x_%s_%s' % (m, nm); n = '%s.%s' % (m, cn)
            t = G_.scalar() if scal else self.typ()
            ini = NONE if r.random() < .2 else G_.init(t, {k: v for k, v in targets.items()})
            if scal and ini['k'] == 'str' and r.random() < .1: ini = NONE
            d = g.decl(t, cn) + ('' if ini is NONE else ' = ' + ctext(ini)) + ';\n'
            decls.append(('' if exported else 'static ') + d)
            if exported: ext.append('extern %s;\n' % g.decl(t, cn))
            self.objs.append(dict(n=n, t=t, init=ini, kind='scal' if scal else 'var', _c=cn, _m=m))
            dump.append(self.dump(cn, t, ini, 'scal' if scal else 'var'))
            if not scal:
                targets[n] = t
                if exported: shared[n] = t
        # forward order of definitions is kept: addresses of later objects need a declaration first
        fns = []
        for k in range(r.choice([0, 1, 2])):     # automatic copies of displays; run twice
            t = self.typ(); ini = G_.init(t, targets, True) if r.random() < .95 else None
            if ini is None or ini['k'] == 'str' or (t[0] == 'arr' and t[1][0] == 'arr' and False): continue
            fn = 'l%d_' % k
            body = '  %s = %s;\n' % (g.decl(t, 'x'), ctext(ini)) + self.dump('x', t, ini, 'local') + '  z_((void*)&x, (int)sizeof(x));\n'
            fns.append('static void %s(void) {\n%s}\n' % (fn, body))
            for _ in range(2):
                self.objs.append(dict(n='%s.%s' % (m, fn), t=t, init=ini, kind='local', _c='x', _m=m)); dump.append('  %s();\n' % fn)
        for k in range(r.choice([0, 1, 3])):
            if r.random() < .5:       # constants in code
                t = [r.choice(['float', 'double'])]; ini = flt(r, t[0])
                self.objs.append(dict(n='', t=t, init=ini, kind='scal', _c=ini['_c'], _m=m)); dump.append(self.dump(ini['_c'], t, ini, 'scal'))
            w = r.random() < .25; s = G_.string(w)
            self.lits.append(dict(s=s['s'], w=w, _m=m, _c=s['_c']))
            n = (s['_n'] + 1) * (4 if w else 1)
            dump.append('  { %s *p = %s; ev_(2, (unsigned long long)(unsigned long)p); d_((void*)p, %d); }\n' % ('wchar_t' if w else 'char', s['_c'], n))
            self.objs.append(dict(n='', kind='lit'))
        tags = ''.join('%s %s {\n%s};\n' % ('union' if t[0] == 'U' else 'struct', t, ''.join('  %s;\n' % g.decl(x, n) for n, x in fs)) for t, fs in G_.tags.items())
        inc = '#include <stddef.h>\n#include <stdlib.h>\n#include <wchar.h>\n'
        others = ''.join('#include "%s.h"\n' % x for x in self.mods if x in self.hdr)
        if m == 'main':
            pre = others or tags
            calls = ''.join('  dump_%s();\n' % x for x in self.mods[1:])
            main = ('int main(void) {\n%s  dump_main();\n  { int st[64]; void *h[6]; int i; for (i = 0; i < 6; i = i + 1) h[i] = malloc(40u); ev_(2, (unsigned long long)(unsigned long)&st[0]); for (i = 0; i < 6; i = i + 1) ev_(2, (unsigned long long)(unsigned long)h[i]); }\n  fl_();\n  return 0;\n}\n' % calls)
            # main runs dump_main last; keep the order of self.objs (library modules first)
            self.text['main'] = inc + pre + g.PRELUDE + ''.join(decls) + ''.join(fns) + 'static void dump_main(void) {\n%s}\n' % ''.join(dump) + main
        else:
            first = not self.hdr
            h = '#pragma once\n#pragma module "%s"\n' % m
            h += tags if first else '#include "%s.h"\n' % next(iter(self.hdr))
            self.hdr[m] = h + ''.join(ext) + 'extern void dump_%s(void);\n' % m
            self.text[m] = inc + others + '#include "%s.h"\n' % m + g.PRELUDE + ''.join(decls) + ''.join(fns) + 'void dump_%s(void) {\n%s  fl_();\n}\n' % (m, ''.join(dump))
    def dump(self, cn, t, ini, kind):
        if kind == 'scal': o = ['  { %s; t[0] = %s; d_((void*)&t[0], (int)sizeof(t[0])); }\n' % (g.decl(g.arr(t, 1), 't'), cn)]
        else: o = ['  ev_(2, (unsigned long long)(unsigned long)&%s); d_((void*)&%s, (int)sizeof(%s));\n' % (cn, cn, cn)]
        for p, x in strptrs(self.G, cn, t, ini): o.append('  d_((void*)%s, %d);\n' % (p, x['_n'] + 1))
        return ''.join(o)
    def parse(self, ev):
        """observations from the event list; None when malformed"""
        pos = 0; objs = []; lits = []; li = iter(self.lits)
        def take(n):
            nonlocal pos
            r = ev[pos:pos + n]; pos += n
            return [b[0] for c, b in r if c == 8] if len(r) == n else None
        def addr():
            nonlocal pos
            c, b = ev[pos]; pos += 1
            return int.from_bytes(b[:4], 'little') if c == 2 else None
        try:
            for o in self.objs:
                if o['kind'] == 'lit':
                    l = next(li); a = addr(); n = sum(self.G.strlen([bytes(s).decode()], l['w']) for s in l['s']) + 1
                    b = take(n * (4 if l['w'] else 1)); lits.append(dict(s=l['s'], w=l['w'], a=a, b=b)); continue
                a = addr() if o['kind'] != 'scal' else 0
                b = take(self.G.size(o['t']))
                strs = [take(x['_n'] + 1) for p, x in strptrs(self.G, '', o['t'], o['init'])]
                objs.append(dict(n=o['n'], t=g.clean(o['t']), init=g.clean(o['init']), kind=o['kind'], a=a, b=b, strs=strs))
            free = [dict(a=addr(), n=256)] + [dict(a=addr(), n=40) for _ in range(6)]
            if pos != len(ev) or any(o['b'] is None for o in objs) or any(l['b'] is None for l in lits): return None
        except (IndexError, StopIteration): return None
        return objs, lits, free
def build1(tool, p, w, r, opts, lvl, kind, pobj, tag):
    """one route: some modules as objects, shuffled order; events or a failure text"""
    files = []; O = lambda: ['-O', str(r.randrange(4))] if lvl is not None else []
    for m in p.mods:
        f = os.path.join(w, m + '.c')
        if r.random() < pobj:
            o = '%s%s.%s' % (f[:-2], tag, r.choice(['o', 'wo', 'wat'])); rc, so, se = tool.obj(f, o, O() + ['-I', w + '/'])
            if rc: return 'object: ' + (so + se).decode(errors='replace')[-400:]
            f = o
        files.append(f)
    r.shuffle(files)
    out = os.path.join(w, 'a%s.%s' % (tag, kind))
    rc, so, se = tool.link(files, out, opts + ([] if lvl is None else ['-O', str(lvl)]) + ['-I', w + '/'])
    if rc: return 'link: ' + (so + se).decode(errors='replace')[-400:]
    b = open(out, 'rb').read()
    if kind == 'wat':
        import wasmtime
        try: b = bytes(wasmtime.wat2wasm(b))
        except Exception as e: return 'textual executable: ' + str(e)[:300]
    res = host.run(b, host.Host(log_io=False), 50_000_000)
    if res.status not in ('exit', 'return') or res.code: return 'run: %s %s' % (res.status, res.msg[-300:])
    return list(g.events(res.out))
def job(a):
    tool, p, d, name, seed, opts, routes = a
    import random
    r = random.Random(seed); w = os.path.join(d, name); os.mkdir(w)
    for m in p.hdr: open(os.path.join(w, m + '.h'), 'w').write(p.hdr[m])
    for m in p.mods: open(os.path.join(w, m + '.c'), 'w').write(p.text[m])
    return [build1(tool, p, w, r, opts, lvl, kind, pobj, '_%d' % k) for k, (lvl, kind, pobj) in enumerate(routes)]
PLAIN = [(None, 'wasm', .4)]
def batch(c, n, part, routes=PLAIN):
    d = build.scratch('wvd02-'); progs = [Program(c.rng, i) for i in range(n)]
    opts = [c.rng.choice([[], [], ['-s', '65536'], ['-a', '4096'], ['-s', '1024']]) for _ in progs]
    res = lang.pmap(job, [(c.tool(), p, d, 'p%04d' % i, c.rng.randrange(1 << 30), o, routes) for i, (p, o) in enumerate(zip(progs, opts))])
    items = []; idx = []
    for p, rr, k in [(p, x, k) for p, r in zip(progs, res) for k, x in enumerate(r)]:
        det = dict(sources=p.text, headers=p.hdr, route=routes[k])
        if isinstance(rr, str): c.violation('%s:fail' % part, 'valid program not built or run: %s' % rr, det); continue
        ob = p.parse(rr)
        if ob is None: c.violation('%s:shape' % part, 'dump has an unexpected shape', det); continue
        items.append(dict(P=g.clean(g.program({}, p.G.tags)), objs=ob[0], lits=ob[1], free=ob[2])); idx.append(p)
    if not items: return
    t = c.tlc('StaticData', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=items), heap='12g', timeout=800)
    for x in t.prints:
        p = idx[x['i'] - 1]; it = items[x['i'] - 1]
        o = it['objs'][x['obj'] - 1] if x['obj'] <= len(it['objs']) else None
        c.violation('%s:%s' % (part, x['why']), '%s: %s %s' % (x['why'], o['n'] if o else '', '%s init %s bytes %s' % (o['t'], ctext([q for q in p.objs if q['kind'] != 'lit'][x['obj'] - 1]['init']) if o['init']['k'] != 'none' else '-', o['b']) if o else ''),
                    dict(sources=p.text, headers=p.hdr, obs=o or dict(lits=it['lits'], free=it['free'])))
    ns = sum(len(x['objs']) + 1 for x in items)
    if t.distinct != ns + len(items): raise tlc.ModelError('TLC processed %d of %d' % (t.distinct - len(items), ns))
    c.traces += sum(len(x['objs']) for x in items)
    c.part(part, programs=n, builds=n * len(routes), objects=sum(len(x['objs']) for x in items), modules=sum(len(p.mods) for p in progs), literals=sum(len(x['lits']) for x in items), tlc_s=round(t.wall, 1))
    c.sample(dict(source=idx[0].text['main'][-1500:]))
def run(c):
    for k in range(c.n(4, 40)): batch(c, c.n(450, 500), 'programs %d' % k)
if __name__ == "__main__": check.main('D02', run)
