"""D01: objects are laid out and copied as the type prescribes."""
from wv import check, cgen as g, lang
TECHNIQUE = 'TLA+ layout semantics (sizes, alignment, offsets, byte memory, pointer scaling in CLang), trace validation by TLC of compiled programs over random nested struct/union/array types with whole-object byte dumps'
NOTE = 'Random types (nesting <= 4), every member written once, aggregate copies through every access form. Trace validation, not proof.'
V = g.var
SC = g.INTS + ['float', 'double']
class G:
    def __init__(self, rng): self.rng = rng; self.tags = {}
    def scalar(self):
        r = self.rng; x = r.random()
        if x < .8: return [r.choice(SC)]
        if x < .9: return g.ptr(['int'])
        return g.ptr(['char'])
    def ty(self, d):
        r = self.rng; x = r.random()
        if d <= 0 or x < .5: return self.scalar()
        if x < .7: return g.arr(self.ty(d - 1), r.choice([1, 2, 3, 5]))
        if self.tags and x < .95:
            t = r.choice(list(self.tags)); return g.un(t) if t[0] == 'U' else g.st(t)
        return self.scalar()
    def mk(self, n):
        for k in range(n):
            t = ('U' if self.rng.random() < .3 else 'S') + str(k)
            m = [('m%d' % i, self.ty(2)) for i in range(self.rng.randint(1, 6))]
            self.tags[t] = m
            if self.size(g.un(t) if t[0] == 'U' else g.st(t)) > 160: self.tags[t] = [(n_, self.scalar()) for n_, _ in m]
    def align(self, t):
        k = t[0]
        if k == 'arr': return self.align(t[1])
        if k in ('st', 'un'): return max(self.align(x) for _, x in self.tags[t[1]])
        return self.size(t)
    def size(self, t):
        k = t[0]
        if k in g.W: return g.W[k]
        if k in ('float', 'ptr'): return 4
        if k == 'double': return 8
        if k == 'arr': return t[2] * self.size(t[1])
        o = 0
        for _, x in self.tags[t[1]]:
            a = self.align(x)
            o = max(o, self.size(x)) if k == 'un' else -(-o // a) * a + self.size(x)
        a = self.align(t); return -(-o // a) * a
    def paths(self, e, t, acc, agg):
        """all access paths below e; i is 0 or 1 at run time"""
        if t[0] in ('st', 'un'):
            agg.append((e, t))
            for n, x in self.tags[t[1]]: self.paths(g.mem(e, n), x, acc, agg)
        elif t[0] == 'arr':
            agg.append((e, t))
            ks = {0, t[2] - 1} if t[2] > 1 else {0}
            for j in sorted(ks): self.paths(g.idx(e, g.lit(j)), t[1], acc, agg)
            if t[2] > 1 and self.rng.random() < .5: self.paths(g.idx(e, V('i')), t[1], acc, [])
        else: acc.append((e, t))
    def value(self, t):
        r = self.rng
        if t[0] in g.W: return g.lit(g.rval(r, t[0]), t[0])
        if t[0] in ('float', 'double'): return g.flit(r.choice([1.5, -2.25, 0.5, 1e10, 3.0]), t[0])
        return g.cast(t, g.lit(r.getrandbits(32), 'ulong'))
def static_fn(G_, T):
    b = [g.vdecl('x', T), g.vdecl('y', g.arr(T, 2))]
    em = lambda e: b.append(g.xs(g.emit(e)))
    em(g.sizeof(T)); em(g.alignof(T)); em(g.sizeof(g.arr(T, 3))); em(g.sizeof(g.ptr(T)))
    em(g.countof(V('y'))); em(g.sizeofx(V('y'), g.arr(T, 2)))
    for n, t in G_.tags[T[1]]:
        em(g.offsetof(T, n)); em(g.sizeof(t)); em(g.alignof(t))
        em(g.sizeofx(g.mem(V('x'), n), t))
        if t[0] == 'arr': em(g.countof(g.mem(V('x'), n)))
        C = g.ptr(['char'])
        a = g.addr(g.mem(V('x'), n))
        em(g.bin_('-', g.cast(C, a), g.cast(C, g.addr(V('x')))))
    return g.func(['void'], [('i', ['int'])], b)
def access_fns(c, G_, T, funs, k):
    """write each member through one access form; dump the whole array of objects each time"""
    A = g.arr(T, 3); r = c.rng
    forms = {'loc': (g.idx(V('x'), V('i')), True), 'glob': (g.idx(V('gx%d' % k), g.lit(1)), False),
             'ptr': (g.deref(V('p')), True), 'arrow': (g.idx(V('p'), V('i')), True), 'gvar': (g.idx(V('gx%d' % k), g.bin_('+', V('i'), g.lit(1))), False)}
    gt = g.arr(T, 4)
    for fn, (base, loc) in forms.items():
        decls = [g.vdecl('x', A), g.vdecl('p', g.ptr(T), g.addr(g.idx(V('x'), g.lit(1))))] if loc else []
        dmp = g.xs(dict(g.dump(V('x')), _t=A)) if loc else g.xs(dict(g.dump(V('gx%d' % k)), _t=gt))
        acc, agg = [], []; G_.paths(base, T, acc, agg); r.shuffle(acc)
        if fn == 'arrow':      # p->m form for direct members
            acc += [(g.arrow(V('p'), n), t) for n, t in G_.tags[T[1]] if t[0] not in ('st', 'un', 'arr')]
        b = list(decls)
        for e, t in acc[:8]:
            b.append(g.xs(g.asn(e, G_.value(t)))); b.append(dmp)
            if t[0] in g.W: b.append(g.xs(g.emit(e)))
            C = g.ptr(['char']); z = V('x') if loc else V('gx%d' % k)
            b.append(g.xs(g.emit(g.cast(['int'], g.bin_('-', g.cast(C, g.addr(e)), g.cast(C, g.addr(g.idx(z, g.lit(0)))))))))
        funs['w%d_%s' % (k, fn)] = g.func(['void'], [('i', ['int'])], b)
def copy_fn(c, G_, T, k):
    A = g.arr(T, 3); gt = g.arr(T, 4); r = c.rng; gx = V('gx%d' % k)
    b = [g.vdecl('x', A), g.vdecl('y', T), g.vdecl('p', g.ptr(T), g.addr(g.idx(V('x'), g.lit(0)))), g.vdecl('q', g.ptr(T), g.addr(g.idx(gx, g.lit(2))))]
    def dmp():
        b.append(g.xs(dict(g.dump(V('x')), _t=A))); b.append(g.xs(dict(g.dump(gx), _t=gt))); b.append(g.xs(dict(g.dump(V('y')), _t=T)))
    places = [g.idx(V('x'), V('i')), g.idx(V('x'), g.lit(2)), V('y'), g.idx(gx, V('i')), g.idx(gx, g.lit(3)), g.deref(V('p')), g.deref(V('q')), g.idx(V('q'), g.lit(-1)), g.deref(g.bin_('+', V('p'), V('i')))]
    for _ in range(6):
        d, s = r.choice(places), r.choice(places)
        da, sa, x = [], [], r.random()
        if x < .4: b.append(g.xs(g.asn(d, s)))
        else:
            G_.paths(d, T, [], da)
            by = [e for e in da]
            e, t = r.choice(by)
            src = []; G_.paths(s, T, [], src); src = [e2 for e2, t2 in src if t2 == t]
            b.append(g.xs(g.asn(e, r.choice(src))))
        dmp()
    return g.func(['void'], [('i', ['int'])], b)
def ptr_fn(c, G_, T, k):
    gx = V('gx%d' % k); P = g.ptr(T); b = [g.vdecl('p', P, g.addr(g.idx(gx, V('i')))), g.vdecl('q', P, g.addr(g.idx(gx, V('j'))))]
    em = lambda e: b.append(g.xs(g.emit(e)))
    base = g.addr(g.idx(gx, g.lit(0)))
    em(g.cast(['int'], g.bin_('-', V('q'), V('p'))))
    for op in g.CMP: em(g.bin_(op, V('p'), V('q')))
    em(g.cast(['int'], g.bin_('-', g.bin_('+', V('p'), V('j')), base))); em(g.cast(['int'], g.bin_('-', g.bin_('-', V('q'), V('j')), base)))
    b.append(g.xs(g.asn(V('p'), V('j'), '+'))); em(g.cast(['int'], g.bin_('-', V('p'), base)))
    b.append(g.xs(g.asn(V('p'), V('j'), '-'))); em(g.cast(['int'], g.bin_('-', V('p'), base)))
    em(g.cast(['int'], g.bin_('-', g.inc(V('p'), '+', True), base))); em(g.cast(['int'], g.bin_('-', g.inc(V('q'), '-'), base)))
    em(g.cast(['int'], g.bin_('-', V('p'), base))); em(g.cast(['int'], g.bin_('-', V('q'), base)))
    C = g.ptr(['uchar'])
    em(g.cast(['int'], g.bin_('-', g.cast(C, g.bin_('+', base, V('j'))), g.cast(C, base))))
    em(g.bin_('-', g.cast(['ulong'], V('p')), g.cast(['ulong'], base)))
    return g.func(['void'], [('i', ['int']), ('j', ['int'])], b)
def units(c, n):
    out = []
    for _ in range(n):
        G_ = G(c.rng); G_.mk(c.rng.randint(3, 6))
        funs, runs, gl = {}, [], []
        for k, t in enumerate(G_.tags):
            T = g.un(t) if t[0] == 'U' else g.st(t)
            gl.append(('gx%d' % k, g.arr(T, 4), [(x * 29 + k * 7 + 3) % 251 for x in range(G_.size(T) * 4)]))
            funs['s%d' % k] = static_fn(G_, T); runs.append(('s%d' % k, [0], None))
            access_fns(c, G_, T, funs, k); runs += [('w%d_%s' % (k, f), [1 if f not in ('loc',) else c.rng.choice([0, 2]) * 0 + 1], None) for f in ('loc', 'glob', 'ptr', 'arrow', 'gvar')]
            funs['c%d' % k] = copy_fn(c, G_, T, k); runs += [('c%d' % k, [i], None) for i in (0, 1)]
            funs['p%d' % k] = ptr_fn(c, G_, T, k); runs += [('p%d' % k, [i, j], None) for i, j in ((0, 3), (2, 1), (1, 1), (1, 2))]
        # bool members hold 0 or 1 only: give the globals valid images
        def fix(t, b, o):
            if t[0] == 'bool': b[o] &= 1
            elif t[0] == 'arr':
                for i in range(t[2]): fix(t[1], b, o + i * G_.size(t[1]))
            elif t[0] in ('st', 'un'):
                p = 0
                for _, x in G_.tags[t[1]]:
                    if t[0] == 'st': p = -(-p // G_.align(x)) * G_.align(x)
                    fix(x, b, o + p)
                    if t[0] == 'st': p += G_.size(x)
        for n_, t, b in gl: fix(t, b, 0)
        out.append(lang.Unit(g.program(funs, G_.tags, gl), runs, extra='#include <stddef.h>\n'))
    return out
def run(c):
    u = units(c, c.n(24, 500))
    lang.validate(c, u, 'layout')
    c.sample(dict(tags=u[0].prog['tags'], function=g.cfunc('s0', u[0].prog['funs']['s0'])[:600]))
if __name__ == '__main__': check.main('D01', run)
