"""E01: run-time integer expressions."""
from wv import check, cgen as g, lang
TECHNIQUE = 'TLA+ big-step C expression semantics (CLang/IntSem), trace validation by TLC of compiled programs over an exhaustive operator x type x boundary grid and random expression trees; arithmetic model-checked against native integers'
NOTE = 'Grid exhaustive over operators and type pairs with boundary values; trees random. Trace validation, not proof.'
PICK = {}
def vals(t, rng, k):
    b = g.BOUND[t]
    hot = [x for x in (b[0], b[-1], -1, 1, 0, 2, b[len(b) // 2]) if x in b]
    out = hot[:] if len(hot) <= k else hot
    while len(out) < k: out.append(g.rval(rng, t))
    return out
def bad(op, t1, t2, a, b):
    if op in ('<<', '>>'): return not 0 <= b < 8 * g.W[g.promote(t1)]
    if op in ('/', '%'):
        c = g.common(t1, t2); x, y = g.wrap(a, c), g.wrap(b, c)
        return y == 0 or (y == -1 and c in g.SG and x == -(1 << (8 * g.W[c] - 1)))
    return False
def pairs(op, t1, t2, rng, k):
    r = []; v1, v2 = vals(t1, rng, 7), vals(t2, rng, 7)
    if op in ('<<', '>>'):
        n = 8 * g.W[g.promote(t1)]; v2 = [x for x in (0, 1, 7, n // 2, n - 1, n - 2, 3) if x <= g.BOUND[t2][-1]]
    for i in range(400):
        if len(r) >= k: break
        a = rng.choice(v1) if rng.random() < .7 else g.rval(rng, t1)
        b = rng.choice(v2) if rng.random() < .7 or op in ('<<', '>>') else g.rval(rng, t2)
        if rng.random() < .1 and g.wrap(a, t2) == a: b = a
        if (a, b) in r or bad(op, t1, t2, a, b): continue
        r.append((a, b))
    return r
def place(rng, v, t, kind=None):
    """an operand holding parameter v: (declarations, lvalue).  The dialect keeps scalars in registers unless they are
    elements, members or pointed to, so each kind is compiled differently."""
    kind = kind or rng.choice(['reg', 'elem', 'member', 'ptr', 'pidx'])
    w, T = g.var(v), [t]
    if kind == 'reg': return [], w
    A = g.var('m_' + v); P = g.var('p_' + v)
    if kind == 'member':
        tag = {'bool': 'Sb', 'char': 'Sc', 'uchar': 'Suc', 'short': 'Ss', 'ushort': 'Sus', 'int': 'Si', 'uint': 'Sui', 'long': 'Sl', 'ulong': 'Sul', 'llong': 'Sll', 'ullong': 'Sull'}[t]
        return [g.vdecl('m_' + v, g.st(tag)), g.xs(g.asn(g.mem(A, 'x'), g.cast(T, w)))], g.mem(A, 'x')
    d = [g.vdecl('m_' + v, g.arr(T, 3)), g.xs(g.asn(g.idx(A, g.lit(1)), g.cast(T, w)))]
    if kind == 'elem': return d, g.idx(A, g.lit(1))
    d.append(g.vdecl('p_' + v, g.ptr(T), g.addr(g.idx(A, g.lit(1 if kind == 'ptr' else 0)))))
    return d, g.deref(P) if kind == 'ptr' else g.idx(P, g.lit(1))
TAGS = {n: [('c', ['char']), ('x', [t]), ('d', ['char'])] for n, t in (('Sb', 'bool'), ('Sc', 'char'), ('Suc', 'uchar'), ('Ss', 'short'), ('Sus', 'ushort'), ('Si', 'int'), ('Sui', 'uint'), ('Sl', 'long'), ('Sul', 'ulong'), ('Sll', 'llong'), ('Sull', 'ullong'))}
def subst(e, m):
    if isinstance(e, dict): return m[e['n']] if e.get('k') == 'var' and e['n'] in m else {k: subst(x, m) for k, x in e.items()}
    return [subst(x, m) for x in e] if isinstance(e, list) else e
def memops(c):
    """unary operators, casts and double casts applied directly to every kind of memory operand"""
    units = []
    for t1 in g.INTS:
        for kind in ('elem', 'member', 'ptr', 'pidx'):
            funs, runs = {}, []
            def add(n, f):
                d, a = place(c.rng, 'a', t1, kind)
                funs[n] = g.func(['void'], [('a', [t1])], d + [g.xs(g.emit(f(a)))])
                runs.extend((n, [v], None) for v in g.BOUND[t1] + [g.rval(c.rng, t1) for _ in range(3)])
            for i, op in enumerate(['-', '~', '!', '+']): add('u%d' % i, lambda a: g.una(op, a))
            for t2 in g.INTS:
                add('c_' + t2, lambda a: g.cast([t2], a))
                t3 = c.rng.choice(g.INTS); add('cc_' + t2, lambda a: g.cast([t3], g.cast([t2], a)))
            add('s', lambda a: g.cond(a, g.lit(5), g.lit(7))); add('la', lambda a: g.land(a, a)); add('lo', lambda a: g.lor(g.una('!', a), a))
            units.append(lang.Unit(g.program(funs, TAGS), runs))
    return units
def grid(c, k):
    units = []
    for op in g.ARITH + g.CMP + ['&&', '||']:
        for t1 in g.INTS:
            funs, runs = {}, []
            for t2 in g.INTS:
                if {g.promote(t1), g.promote(t2)} == {'uint', 'long'} and op not in ('<<', '>>', '&&', '||'): pass
                n = 'f_' + t2
                l, r = g.var('a'), g.var('b')
                e = g.land(l, r) if op == '&&' else g.lor(l, r) if op == '||' else g.bin_(op, l, r)
                (d1, l2), (d2, r2) = place(c.rng, 'a', t1), place(c.rng, 'b', t2)
                m = dict(a=l2, b=r2)
                funs[n] = g.func(['void'], [('a', [t1]), ('b', [t2])], d1 + d2 + [g.xs(g.emit(subst(e, m))), g.xs(g.emit(l2)), g.xs(g.emit(r2))])
                runs += [(n, list(p), None) for p in pairs(op, t1, t2, c.rng, k)]
            units.append(lang.Unit(g.program(funs, TAGS), runs, extra='/* %s %s */\n' % (op, t1)))
    for t1 in g.INTS:
        funs, runs = {}, []
        kk = 2 * k
        def flush():
            if funs: units.append(lang.Unit(g.program(dict(funs)), list(runs)))
            funs.clear(); runs.clear()
        def add(n, e):
            funs[n] = g.func(['void'], [('a', [t1])], [g.xs(g.emit(e)), g.xs(g.emit(g.var('a')))])
            vs = g.BOUND[t1] + [g.rval(c.rng, t1) for _ in range(4)]
            runs.extend((n, [v], None) for v in (vs if len(vs) <= kk else c.rng.sample(vs, kk)))
            if len(funs) == 16: flush()
        a = g.var('a')
        for i, op in enumerate(['-', '~', '!', '+']): add('u%d' % i, g.una(op, a))
        for t2 in g.INTS:
            add('c_' + t2, g.cast([t2], a))
            for t3 in c.rng.sample(g.INTS, 4): add('cc_%s_%s' % (t2, t3), g.cast([t3], g.cast([t2], a)))
            add('q_' + t2, g.cond(a, a, g.lit(1, t2))); add('r_' + t2, g.cond(g.una('!', a), g.lit(2 if t2 != 'bool' else 1, t2), a))
        for op in g.ARITH + g.CMP:       # literal operands (immediate forms)
            for t2 in g.INTS:
                v = [x for x in g.BOUND[t2] if not bad(op, t1, t2, 5 if op in ('/', '%') else 1, x) and not (op in '/%' and x in (0, -1))]
                add('l_%d_%s' % ((g.ARITH + g.CMP).index(op), t2), g.bin_(op, a, g.lit(c.rng.choice(v), t2)))
        flush()
    return units
def trees(c, nu, nf, depth):
    units = []
    for _ in range(nu):
        funs, runs = {}, []
        for k in range(nf):
            ts = [c.rng.choice(g.INTS) for _ in range(4)]
            env = {v: t for v, t in zip('abcd', ts)}
            e, _t = g.ExprGen(c.rng, env).gen(c.rng.randint(2, depth), ['a', 'b'] if c.rng.random() < .4 else [], list('abcd')[2:] if c.rng.random() < .4 else list('abcd'))
            n = 'f%d' % k
            funs[n] = g.func(['void'], [(v, [t]) for v, t in zip('abcd', ts)],
                             [g.xs(g.emit(e))] + [g.xs(g.emit(g.var(v))) for v in 'abcd'])
            runs += [(n, [g.rval(c.rng, t) for t in ts], None) for _ in range(5)]
        units.append(lang.Unit(g.program(funs), runs))
    return units
def commontype(c):
    """the one deviation from the usual arithmetic conversions, kept as a finding"""
    from wv import build, host
    import os
    d = build.scratch()
    src = os.path.join(d, 'a.c'); out = os.path.join(d, 'a.wasm')
    open(src, 'w').write(g.PRELUDE + 'int main(void) { unsigned a; long b; a = 4294967295U; b = 1L; E_(a + b); E_(b > a); fl_(); return 0; }\n')
    rc, so, se = c.tool().link([src], out)
    if rc: c.violation('common(uint,long):compile', 'unsigned + long not compiled: %r' % (so + se), {}); return
    r = host.run(open(out, 'rb').read())
    ev = [(k, int.from_bytes(b, 'little')) for k, b in g.events(r.out)]
    c.traces += 1
    if ev != [(4, 0), (1, 0)]:
        c.violation('common(uint,long)' if ev == [(3, 0), (1, 1)] else 'common(uint,long):other',
                    'unsigned + long should have type unsigned long and value 0: %s' % ev, dict(source=open(src).read(), events=ev))
def run(c):
    m = c.tlc('IntSemMC', 'CONSTANT Full = %s\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n' % ('TRUE' if c.thorough else 'FALSE'))
    c.part('arithmetic laws', states=m.distinct)
    commontype(c)
    units = grid(c, c.n(6, 30))
    lang.validate(c, units, 'grid')
    lang.validate(c, memops(c), 'memory operands')
    t = trees(c, c.n(60, 500), 20, 5)
    lang.validate(c, t, 'trees')
    f = t[0].prog['funs']['f0']
    c.sample(dict(function=g.cfunc('f0', f), args=t[0].runs[0][1]))
    c.sample(dict(function=g.cfunc('f_int', units[0].prog['funs']['f_int']), args=units[0].runs[0][1]))
if __name__ == "__main__": check.main('E01', run)
