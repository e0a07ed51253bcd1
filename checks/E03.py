"""E03: assignments and increments update exactly the designated object."""
from wv import check, cgen as g, lang
from checks.E01 import bad, vals
TECHNIQUE = 'TLA+ byte-memory semantics of assignment (CLang), trace validation by TLC of compiled programs over an lvalue-kind x operator x type grid with whole-object dumps, and random side-effect trees over distinct objects'
NOTE = 'Grid exhaustive over lvalue kinds, operators and target types; operand types and values sampled. Trace validation, not proof.'
OPS = ['='] + g.ARITH + ['++x', '--x', 'x++', 'x--']
V, D = g.var, g.dump
def tags(t): return {'S': [('c', ['char']), ('x', [t]), ('q', ['short']), ('a', g.arr([t], 3)), ('z', ['uchar'])],
                     'N': [('h', ['uchar']), ('s', g.st('S')), ('m', g.arr(g.st('S'), 2)), ('y', [t])],
                     'U': [('x', [t]), ('w', ['llong']), ('b', g.arr(['uchar'], 3))]}
def kinds(t):
    S, T = g.st('S'), [t]
    i, k = V('i'), V('k')
    return {   # name -> (lvalue, declarations, objects to dump)
        'local': (V('x'), [('x', T, None)], ['x']),
        'addrlocal': (V('x'), [('x', T, None), ('p', g.ptr(T), g.addr(V('x')))], ['x']),
        'param': (V('v'), [], []),
        'global': (V('gx'), [], ['gx', 'gy']),
        'gelem': (g.idx(V('ga'), g.lit(2)), [], ['ga']),
        'gelemv': (g.idx(V('ga'), i), [], ['ga']),
        'gelemx': (g.idx(V('ga'), g.bin_('-', g.lit(3), i)), [], ['ga']),
        'lelem': (g.idx(V('la'), i), [('la', g.arr(T, 4), None)], ['la']),
        'lelemc': (g.idx(V('la'), g.lit(3)), [('la', g.arr(T, 4), None), ('x', T, None)], ['la', 'x']),
        'l2d': (g.idx(g.idx(V('lb'), i), k), [('lb', g.arr(g.arr(T, 3), 2), None)], ['lb']),
        'g2d': (g.idx(g.idx(V('gb'), g.lit(1)), k), [], ['gb']),
        'lmem': (g.mem(V('ls'), 'x'), [('ls', S, None)], ['ls']),
        'gmem': (g.mem(V('gs'), 'x'), [], ['gs']),
        'garr': (g.idx(g.mem(V('gs'), 'a'), i), [], ['gs']),
        'gelmem': (g.mem(g.idx(V('gt'), i), 'x'), [], ['gt']),
        'nest': (g.idx(g.mem(g.idx(g.mem(V('gn'), 'm'), i), 'a'), g.lit(2)), [], ['gn']),
        'nesty': (g.mem(V('ln'), 'y'), [('ln', g.st('N'), None)], ['ln']),
        'umem': (g.mem(V('lu'), 'x'), [('lu', g.un('U'), None)], ['lu']),
        'ptr': (g.deref(V('p')), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(1))))], ['ga']),
        'ptrl': (g.deref(V('p')), [('x', T, None), ('y', T, None), ('p', g.ptr(T), g.addr(V('x')))], ['x', 'y']),
        'pplus': (g.deref(g.bin_('+', V('p'), i)), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(1))))], ['ga']),
        'pidx': (g.idx(V('p'), i), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(1))))], ['ga']),
        'pneg': (g.idx(V('p'), g.una('-', i)), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(3))))], ['ga']),
        'arrow': (g.arrow(V('p'), 'x'), [('p', g.ptr(S), g.addr(g.idx(V('gt'), g.lit(1))))], ['gt']),
        'arrowa': (g.idx(g.arrow(V('p'), 'a'), i), [('p', g.ptr(S), g.addr(g.idx(V('gt'), g.lit(0))))], ['gt']),
        'pinc': (g.deref(g.inc(V('p'), '+', True)), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(1))))], ['ga', '*p']),
        'pdec': (g.deref(g.inc(V('p'), '-', False)), [('p', g.ptr(T), g.addr(g.idx(V('ga'), g.lit(2))))], ['ga', '*p']),
        'sidx': (g.idx(V('ga'), g.inc(V('n'), '+', True)), [('n', ['int'], g.lit(1))], ['ga', 'n']),
        'fidx': (g.idx(V('ga'), g.pr(3, i)), [], ['ga']),
        'pp': (g.deref(g.deref(V('r'))), [('x', T, None), ('p', g.ptr(T), g.addr(V('x'))), ('r', g.ptr(g.ptr(T)), g.addr(V('p')))], ['x']),
    }
def seed_bytes(n, k): return [(37 * i + 11 * k + 5) % 256 for i in range(n)]
def size(t, tg):
    if t[0] in g.W: return g.W[t[0]]
    if t[0] == 'arr': return t[2] * size(t[1], tg)
    al = lambda t: al(t[1]) if t[0] == 'arr' else g.W[t[0]] if t[0] in g.W else max(al(x) for _, x in tg[t[1]])
    o = 0
    for _, x in tg[t[1]]:
        if t[0] == 'un': o = max(o, size(x, tg)); continue
        o = -(-o // al(x)) * al(x) + size(x, tg)
    return -(-o // al(t)) * al(t)
def globs(t):
    tg = tags(t); out = []
    for k, (n, ty) in enumerate([('gx', [t]), ('gy', ['llong']), ('ga', g.arr([t], 4)), ('gb', g.arr(g.arr([t], 3), 2)),
                                 ('gs', g.st('S')), ('gt', g.arr(g.st('S'), 2)), ('gn', g.st('N'))]):
        b = seed_bytes(size(ty, tg), k)
        if t == 'bool' : b = [x & 1 for x in b]
        out.append((n, ty, b))
    return out
def grid(c, nr, nv):
    units = []
    for t in g.INTS:
        for kn, (lv, decls, dumps) in kinds(t).items():
            funs, runs = {}, []
            for oi, op in enumerate(OPS):
                for tr in (c.rng.sample(g.INTS, nr) if '++' not in op and '--' not in op else ['int']):
                    if kn == 'param' and False: continue
                    r = V('r0')
                    if op in g.ARITH or op == '=':
                        tq = tr
                        if op in ('<<', '>>'): r = g.bin_('&', r, g.lit(8 * g.W[g.promote(t)] - 1, 'int'))
                        if op in ('/', '%'): r = g.lit(c.rng.choice([x for x in g.BOUND[tr] if x not in (0, -1)]) , tr)
                        if op in ('<<', '>>'): need = False
                        elif op == '=': need = not g.assignable(t, tq)
                        else: need = not g.assignable(t, g.common(t, tq))
                        if need and op in ('/', '%') and g.wrap(r['_v'], t) in (0, -1): r = g.lit(3 if t != 'bool' else 1, tr)
                        if need: r = g.cast([t], r)
                        e = g.asn(lv, r, op)
                    else: e = g.inc(lv, op.strip('x')[0], op[0] == 'x')
                    body = [g.vdecl(n, ty, x) for n, ty, x in decls]
                    # initial value of the designated object (side-effect-free lvalues only)
                    if kn not in ('pinc', 'pdec', 'sidx', 'fidx', 'param'): body.append(g.xs(g.asn(lv, V('v'))))
                    body.append(g.xs(g.emit(e)))
                    for d in dumps:
                        if d == '*p': body.append(g.xs(g.emit(g.cast(['int'], g.bin_('-', V('p'), g.addr(g.idx(V('ga'), g.lit(0))))))))
                        elif d in ('x', 'y', 'n', 'gx', 'gy'): body.append(g.xs(g.emit(V(d))))
                        else: body.append(g.xs(D(V(d))))
                    body += [g.xs(g.emit(V(n))) for n in ('v', 'r0', 'i', 'k')]
                    fn = 'f%d_%s' % (oi, tr)
                    funs[fn] = g.func(['void'], [('v', [t]), ('r0', [tr]), ('i', ['int']), ('k', ['int'])], body)
                    for _ in range(nv):
                        v = g.rval(c.rng, t)
                        runs.append((fn, [v, g.rval(c.rng, tr), c.rng.choice([0, 1]) , c.rng.choice([0, 1, 2])], None))
            units.append(lang.Unit(g.program(funs, tags(t), globs(t)), runs, extra='/* %s %s */\n' % (kn, t)))
    return units
def pointers(c):
    """pointer-typed objects: =, +=, -=, ++, -- on pointers to every type"""
    units = []
    for t in g.INTS + ['S']:
        T = g.st('S') if t == 'S' else [t]
        tg = tags('int'); z = size(g.arr(T, 6), tg)
        P = g.ptr(T); base = g.addr(g.idx(V('ga'), g.lit(0)))
        off = lambda e: g.xs(g.emit(g.cast(['int'], g.bin_('-', e, base))))
        funs, runs = {}, []
        tag2 = {'H': [('c', ['char']), ('p', P), ('d', ['short'])]}
        for hn, (lv, decls) in {'l': (V('p'), [('p', P, base)]), 'm': (g.mem(V('h'), 'p'), [('h', g.st('H'), None)]),
                     'e': (g.idx(V('pa'), g.lit(1)), [('pa', g.arr(P, 3), None)]), 'g': (V('gp'), []),
                     'a': (g.arrow(V('hp'), 'p'), [('h', g.st('H'), None), ('hp', g.ptr(g.st('H')), g.addr(V('h')))]),
                     'pp': (g.deref(V('q')), [('p', P, base), ('q', g.ptr(P), g.addr(V('p')))])}.items():
            for on, e in {'asn': g.asn(lv, g.addr(g.idx(V('ga'), V('i')))), 'add': g.asn(lv, V('i'), '+'), 'sub': g.asn(lv, V('i'), '-'),
                          'pre': g.inc(lv, '+'), 'post': g.inc(lv, '+', True), 'pred': g.inc(lv, '-'), 'postd': g.inc(lv, '-', True),
                          'plus': g.bin_('+', lv, V('i')), 'rplus': g.bin_('+', V('i'), lv), 'minus': g.bin_('-', lv, V('i'))}.items():
                if hn == 'g': continue
                fn = '%s_%s' % (hn, on)
                body = [g.vdecl(*d) for d in decls] + [g.xs(g.asn(lv, g.addr(g.idx(V('ga'), g.lit(3))))), off(e), off(lv)]
                if hn in 'ma': body += [g.xs(g.emit(g.mem(V('h'), 'c'))), g.xs(g.emit(g.mem(V('h'), 'd')))]
                body.append(g.xs(D(V('ga'))))
                for it in ('int', 'uint', 'char', 'ulong'):
                    if on in ('pre', 'post', 'pred', 'postd') and it != 'int': continue
                    funs[fn + it] = g.func(['void'], [('i', [it])], body)
                    runs += [(fn + it, [k], None) for k in (0, 1, 2)] + ([(fn + it, [-1], None)] if it in ('int', 'char') and on not in ('asn',) else [])
        units.append(lang.Unit(g.program(funs, dict(tg, **tag2), [('ga', g.arr(T, 6), seed_bytes(z, 1) if t != 'bool' else [x & 1 for x in seed_bytes(z, 1)])]), runs, extra='/* ptr %s */\n' % t))
    return units
def trees(c, nu, nf, depth):
    """random expressions whose writable operands are distinct objects of every storage kind"""
    units = []
    for _ in range(nu):
        t = c.rng.choice(g.INTS); tg = tags(t); ks = kinds(t)
        funs, runs = {}, []
        pool = ['local', 'param', 'global', 'gelemv', 'g2d', 'lelem', 'gmem', 'gelmem', 'nest', 'lmem', 'umem', 'nesty', 'l2d']
        for k in range(nf):
            ch = c.rng.sample(pool, 4); lvs, env, decls, dumps = {}, {}, [], []
            for kn in ch:
                lv, d, ob = ks[kn]; lvs[kn] = lv; env[kn] = t; decls += d; dumps += ob
            env.update(b='int', w=c.rng.choice(g.INTS)); 
            G = g.ExprGen(c.rng, env, lvs=lvs)
            body = [g.vdecl(*d) for d in decls]
            for _s in range(3):
                w = c.rng.choice(ch); e, _t = G.assign(depth, w, ['b'], ch + ['w'])
                body.append(g.xs(g.emit(e)))
            for d in dumps: body.append(g.xs(g.emit(V(d)) if d in ('x', 'gx', 'gy') else D(V(d))))
            body += [g.xs(g.emit(V(n))) for n in ('v', 'b', 'w', 'i', 'k')]
            fn = 'f%d' % k
            funs[fn] = g.func(['void'], [('v', [t]), ('b', ['int']), ('w', [env['w']]), ('i', ['int']), ('k', ['int'])], body)
            runs += [(fn, [g.rval(c.rng, t), g.rval(c.rng, 'int'), g.rval(c.rng, env['w']), c.rng.choice([0, 1]), c.rng.choice([0, 1, 2])], None) for _ in range(3)]
        units.append(lang.Unit(g.program(funs, tg, globs(t)), runs))
    return units
def run(c):
    u = grid(c, c.n(1, 6), c.n(2, 5))
    lang.validate(c, u, 'grid'); c.sample(dict(function=g.cfunc('f1_', list(u[40].prog['funs'].values())[1])))
    lang.validate(c, pointers(c), 'pointers')
    t = trees(c, c.n(48, 400), 16, 4)
    lang.validate(c, t, 'trees'); c.sample(dict(function=g.cfunc('f0', t[0].prog['funs']['f0']), run=t[0].runs[0]))
if __name__ == '__main__': check.main('E03', run)
