"""F02: calls bind arguments, isolate activations and restore the stack."""
from wv import check, cgen as g, lang
TECHNIQUE = 'TLA+ activation semantics (CLang: fresh parameter/local objects, variadic slots, function values), trace validation by TLC of compiled random call graphs incl. recursion, function pointers, variadics, structure returns, shadowing; stack depth compared around every call'
NOTE = 'Random programs; depth <= 6 recursion, <= 8 functions per program. Trace validation, not proof.'
V = g.var
TAGS = {'S': [('c', ['char']), ('x', ['int']), ('y', ['llong']), ('a', g.arr(['short'], 3))], 'R': [('a', ['int']), ('b', ['int'])],
        'B': [('h', ['uchar']), ('w', g.arr(['int'], 10)), ('r', g.st('R'))], 'U': [('i', ['int']), ('b', g.arr(['uchar'], 5))]}
SIGS = [('int', ['int', 'int']), ('llong', ['char', 'ullong']), ('uchar', ['int'])]
VAT = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong']
class G:
    def __init__(self, rng):
        self.rng = rng; self.funs = {}; self.meta = {}; self.n = 0
    def expr(self, env, d=2, types=None):
        names = [n for n, t in env.items() if t in g.W]
        return g.ExprGen(self.rng, {n: env[n] for n in names}).gen(d, names, [])
    def to(self, e, tq, t):
        return e if g.strict(t, tq) else g.cast([t], e)
    def arg(self, env, t, d=2):
        e, tq = self.expr(env, self.rng.randint(0, d)); return self.to(e, tq, t)
    def callee(self, env, kinds):
        c = [n for n, m in self.meta.items() if m['kind'] in kinds]
        return self.rng.choice(c) if c else None
    def call(self, env, f):
        m = self.meta[f]; args = []
        for p in m['ps']:
            if p == 'd': args.append(g.lit(self.rng.randint(0, 1)))
            elif isinstance(p, str): args.append(self.arg(env, p))
            else: args.append(p)
        return g.call(f, *args)
    def stmts(self, env, out, me, depth):
        r = self.rng; x = r.random()
        if x < .08:
            v = r.choice([n for n, t in env.items() if t in g.W and n not in me['const']])
            e, _ = g.ExprGen(r, {n: t for n, t in env.items() if t in g.W}).assign(2, v, [n for n, t in env.items() if t in g.W and n != v], [v])
            out.append(g.xs(g.emit(e)))
        elif x < .3:
            f = self.callee(env, ['plain'])
            if f:
                c = self.call(env, f); m = self.meta[f]
                y = r.random()
                if m['ret'] == 'void': out.append(g.xs(c))
                elif y < .3: out.append(g.xs(g.emit(c)))
                elif y < .5: out.append(g.xs(g.emit(g.bin_(r.choice(['+', '-', '^', '*', '<']), self.expr(env, 2)[0], c))))
                elif y < .6: out.append(g.xs(g.emit(g.cond(self.expr(env, 1)[0], c, g.lit(5)))))
                elif y < .65: out.append(g.xs(c))
                elif y < .8 and any(t in g.W and n not in me['const'] for n, t in env.items()):
                    v = r.choice([n for n, t in env.items() if t in g.W and n not in me['const']])
                    out.append(g.xs(g.asn(V(v), g.cast([env[v]], c)))); out.append(g.xs(g.emit(V(v))))
                else:
                    # one call among the arguments of another
                    h = self.callee(env, ['plain']); mh = self.meta[h]
                    if mh['ret'] != 'void' and 'd' not in mh['ps'] and m['ret'] != 'void' and any(isinstance(p, str) for p in mh['ps']):
                        c2 = self.call(env, h); i = r.choice([i for i, p in enumerate(mh['ps']) if isinstance(p, str)])
                        c2['args'][i] = self.to(c, m['ret'], mh['ps'][i]); out.append(g.xs(g.emit(c2)))
                    else: out.append(g.xs(c))
        elif x < .4 and me['rec']:
            c = g.call(me['name'], g.bin_('-', V('d'), g.lit(1)), *[self.arg(env, p) for p in me['ps'][1:]])
            out.append(g.if_(g.bin_('>', V('d'), g.lit(0)), g.block(g.xs(g.emit(c) if me['ret'] != 'void' else c))))
        elif x < .5:
            sg = r.choice(SIGS); c = [n for n, m in self.meta.items() if m.get('sig') == sg]
            if len(c) >= 1:
                self.n += 1; v = 'fp%d' % self.n; ft = ['fnp', [sg[0]], [[t] for t in sg[1]]]
                out.append(g.vdecl(v, ft, g.fun(r.choice(c))))
                if r.random() < .7: out.append(g.if_(self.expr(env, 1)[0], g.xs(g.asn(V(v), g.fun(r.choice(c))))))
                out.append(g.xs(g.emit(g.callp(V(v), [sg[0]], *[self.arg(env, t) for t in sg[1]]))))
                a = self.callee(env, ['apply%d' % SIGS.index(sg)])
                if a: out.append(g.xs(g.emit(g.call(a, V(v), *[self.arg(env, t) for t in self.meta[a]['ps'][1:]]))))
        elif x < .6:
            f = self.callee(env, ['mk'])
            if f:
                m = self.meta[f]; self.n += 1; v = 's%d' % self.n
                t = m['rett']
                out.append(g.vdecl(v, t)); out.append(g.vdecl(v + 'z', t))
                out.append(g.xs(g.asn(V(v), self.call(env, f))))
                c2 = self.call(env, f)
                out.append(g.xs(g.asn(V(v + 'z'), c2)))
                out.append(g.xs(dict(g.dump(V(v)), _t=t))); out.append(g.xs(dict(g.dump(V(v + 'z')), _t=t)))
        elif x < .75:
            f = self.callee(env, ['va'])
            if f:
                m = self.meta[f]; k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9]); sel = r.randint(0, 6 ** k - 1) if k else 0
                ts = []
                q = sel
                for _ in range(k): ts.append(VAT[q % 6]); q //= 6
                args = []
                for t in ts:
                    tt = t
                    if t == 'int' and r.random() < .6: tt = r.choice(['char', 'uchar', 'short', 'ushort', 'bool', 'int'])
                    e, tq = self.expr(env, r.randint(0, 2))
                    args.append(e if tq == tt else g.cast([tt], e))
                fixed = [g.lit(sel), g.lit(k)] + [self.arg(env, p) for p in m['ps'][2:]]
                c = g.call(f, *fixed, *args); out.append(g.xs(g.emit(c)))
        elif x < .85:
            # shadowing block
            ns = [n for n, t in env.items() if t in g.W and n != 'd']
            v = r.choice(ns); t = r.choice(g.INTS); e2 = {n: tt for n, tt in env.items() if n != v}
            init = self.arg(e2, t)
            b = [g.vdecl(v, [t], init)]; env2 = dict(env); env2[v] = t
            me2 = dict(me, const=[c for c in me['const'] if c != v])
            for _ in range(r.randint(1, 2)): self.stmts(env2, b, me2, depth - 1)
            b.append(g.xs(g.emit(V(v))))
            if r.random() < .3:
                k = 'k%d' % self.n; self.n += 1
                out.append(g.for_([g.vdecl(k, ['int'], g.lit(0))], g.bin_('<', V(k), g.lit(2)), g.xs(g.inc(V(k))), g.block(*b)))
            else: out.append(g.block(*b))
            out.append(g.xs(g.emit(V(v))))
        else:
            f = self.callee(env, ['byref'])
            if f:
                self.n += 1; v = 'q%d' % self.n; t = self.meta[f]['pt']
                out.append(g.vdecl(v, g.arr([t], 4)))
                for i in range(4): out.append(g.xs(g.asn(g.idx(V(v), g.lit(i)), g.cast([t], self.expr(env, 1)[0]))))
                out.append(g.xs(g.call(f, g.addr(g.idx(V(v), g.lit(1))), self.arg(env, 'int'))))
                out.append(g.xs(dict(g.dump(V(v)), _t=g.arr([t], 4))))
    def locals(self, env, body):
        r = self.rng
        for i in range(r.randint(1, 3)):
            n = 'l%d' % i; t = r.choice(g.INTS); body.append(g.vdecl(n, [t], self.arg(env, t))); env[n] = t
        if r.random() < .6:
            z = r.choice([1, 3, 8, 17]); t = r.choice(['char', 'int', 'llong', 'short'])
            body.append(g.vdecl('ar', g.arr([t], z)))
            body.append(g.xs(g.asn(g.idx(V('ar'), g.lit(z - 1)), g.cast([t], self.expr(env, 1)[0]))))
            env['ar'] = ('arr', t, z)
    def plain(self, name, sig=None):
        r = self.rng
        rec = sig is None and r.random() < .4
        ps = (['d'] if rec else []) + (sig[1] if sig else [r.choice(g.INTS) for _ in range(r.randint(0, 5))])
        ret = sig[0] if sig else r.choice(g.INTS + ['void'])
        pn = ['d' if p == 'd' else 'p%d' % i for i, p in enumerate(ps)]
        env = {n: ('int' if p == 'd' else p) for n, p in zip(pn, ps)}
        body = [g.xs(g.emit(V(n))) for n in pn] + [g.vdecl('sp', ['int'], g.spv())]
        if r.random() < .3 and ps and not rec:      # parameters are ordinary modifiable objects
            v = r.choice(pn); body.append(g.xs(g.asn(g.deref(g.addr(V(v))), g.cast([env[v]], self.expr(env, 1)[0]))))
        self.locals(env, body)
        me = dict(name=name, rec=rec, ps=ps, ret=ret, const=['d'])
        body.append(g.xs(g.asn(V('sp'), g.spv())))
        for _ in range(r.randint(2, 5)):
            self.stmts(env, body, me, 2)
            if r.random() < .7: body.append(g.xs(g.emit(g.bin_('==', V('sp'), g.spv()))))
        body += [g.xs(g.emit(V(n))) for n, t in env.items() if t in g.W]
        for n, t in env.items():
            if t not in g.W and t[0] == 'arr': body.append(g.xs(dict(g.dump(V(n)), _t=g.arr([t[1]], t[2]))))
        if ret != 'void':
            if r.random() < .3: body.append(g.if_(self.expr(env, 1)[0], g.ret(self.arg(env, ret))))
            body.append(g.ret(self.arg(env, ret)))
        self.funs[name] = g.func([ret], [(n, [t if t != 'd' else 'int']) for n, t in zip(pn, ps)], body)
        self.meta[name] = dict(kind='plain', ps=ps, ret=ret, sig=sig)
    def mk(self, name):
        r = self.rng; tag = r.choice(['S', 'R', 'B', 'U']); t = g.un('U') if tag == 'U' else g.st(tag)
        ps = [r.choice(g.INTS) for _ in range(2)]; env = dict(zip(['p0', 'p1'], ps))
        body = [g.vdecl('r', t), g.vdecl('o', t)]
        fs = {'S': [('c', 'char'), ('x', 'int'), ('y', 'llong')], 'R': [('a', 'int'), ('b', 'int')], 'B': [('h', 'uchar')], 'U': [('i', 'int')]}[tag]
        for n, ft in fs: body.append(g.xs(g.asn(g.mem(V('r'), n), self.arg(env, ft))))
        if tag == 'B': body.append(g.xs(g.asn(g.idx(g.mem(V('r'), 'w'), g.lit(7)), g.lit(77))))
        if tag == 'S': body.append(g.xs(g.asn(g.idx(g.mem(V('r'), 'a'), g.lit(2)), g.lit(-2))))
        self_f = [n for n, m in self.meta.items() if m['kind'] == 'mk' and m['rett'] == t]
        if self_f and r.random() < .6:
            body.append(g.xs(g.asn(V('o'), self.call(env, r.choice(self_f)))))
            body.append(g.xs(dict(g.dump(V('r')), _t=t)))
            body.append(g.if_(self.expr(env, 1)[0], g.ret(V('o'))))
        body.append(g.ret(V('r')))
        self.funs[name] = g.func(t, [('p0', [ps[0]]), ('p1', [ps[1]])], body)
        self.meta[name] = dict(kind='mk', ps=ps, ret='struct', rett=t)
    def va(self, name):
        """sums and reports its extra arguments, whose types are the base-6 digits of the first parameter"""
        r = self.rng; extra = [r.choice(g.INTS) for _ in range(r.randint(0, 2))]
        AP = g.ptr(['va'])
        fwd = [n for n, m in self.meta.items() if m['kind'] == 'vap']
        body = [g.xs(g.emit(g.vacount())), g.vdecl('ap', AP), g.vdecl('q', ['int'], V('sel')), g.vdecl('i', ['int'], g.lit(0)), g.vdecl('s', ['ullong'], g.lit(0, 'ullong'))]
        body.append(g.xs(g.vastart('ap')))
        items = []
        for k, t in enumerate(VAT):
            items += [g.case(k), g.block(g.vdecl('x', [t], g.vaarg('ap', [t])), g.xs(g.emit(V('x'))), g.xs(g.asn(V('s'), g.cast(['ullong'], V('x')), '+'))), g.BREAK]
        loop = [g.switch(g.bin_('%', V('q'), g.lit(6)), *items), g.xs(g.asn(V('q'), g.lit(6), '/'))]
        if fwd and r.random() < .5:
            body.append(g.xs(g.emit(g.call(r.choice(fwd), V('ap'), V('q'), V('n')))))
        body.append(g.for_([], g.bin_('<', V('i'), V('n')), g.xs(g.inc(V('i'), '+', True)), g.block(*loop)))
        body += [g.xs(g.emit(V('p%d' % i))) for i in range(len(extra))]
        body.append(g.ret(V('s')))
        self.funs[name] = g.func(['ullong'], [('sel', ['int']), ('n', ['int'])] + [('p%d' % i, [t]) for i, t in enumerate(extra)], body, va=True)
        self.meta[name] = dict(kind='va', ps=['d', 'd'] + extra, ret='ullong')
    def vap(self, name):
        items = []
        for k, t in enumerate(VAT):
            items += [g.case(k), g.block(g.vdecl('x', [t], g.vaarg('ap', [t])), g.xs(g.emit(V('x')))), g.BREAK]
        body = [g.vdecl('i', ['int'], g.lit(0)),
                g.for_([], g.bin_('<', V('i'), V('n')), g.xs(g.inc(V('i'), '+', True)), g.block(g.switch(g.bin_('%', V('q'), g.lit(6)), *items), g.xs(g.asn(V('q'), g.lit(6), '/')))),
                g.ret(V('i'))]
        self.funs[name] = g.func(['int'], [('ap', g.ptr(['va'])), ('q', ['int']), ('n', ['int'])], body)
        self.meta[name] = dict(kind='vap', ps=[], ret='int')
    def byref(self, name):
        t = self.rng.choice(g.INTS)
        body = [g.xs(g.asn(g.deref(V('p')), g.cast([t], V('v')))), g.xs(g.inc(V('p'), '+')), g.xs(g.asn(g.idx(V('p'), g.lit(1)), g.cast([t], g.bin_('+', g.idx(V('p'), g.lit(0)), V('v'))))),
                g.xs(g.emit(g.inc(g.deref(V('p')), '+', True)))]
        self.funs[name] = g.func(['void'], [('p', g.ptr([t])), ('v', ['int'])], body)
        self.meta[name] = dict(kind='byref', ps=[], pt=t, ret='void')
    def apply(self, name, k):
        sg = SIGS[k]; ft = ['fnp', [sg[0]], [[t] for t in sg[1]]]
        body = [g.xs(g.emit(g.callp(V('f'), [sg[0]], *[self.to(V('p%d' % i), t, t) for i, t in enumerate(sg[1])]))),
                g.ret(g.callp(V('f'), [sg[0]], *[g.cast([t], g.bin_('+', V('p%d' % i), g.lit(1))) for i, t in enumerate(sg[1])]))]
        self.funs[name] = g.func([sg[0]], [('f', ft)] + [('p%d' % i, [t]) for i, t in enumerate(sg[1])], body)
        self.meta[name] = dict(kind='apply%d' % k, ps=[None] + sg[1], ret=sg[0])
def mutual(rng):
    """mutually recursive pair declared ahead, with locals whose addresses are live across calls"""
    P = g.ptr(['int'])
    def body(o, op):
        return [g.vdecl('x', ['int'], g.bin_(op, V('n'), g.lit(3))), g.vdecl('y', ['llong'], g.cast(['llong'], V('x'))), g.vdecl('q', P, g.addr(V('x'))), g.vdecl('sp', ['int'], g.spv()), g.vdecl('r', ['llong'], g.lit(0, 'llong')),
                g.if_(g.bin_('>', V('n'), g.lit(0)), g.block(g.xs(g.asn(V('r'), g.call(o, g.bin_('-', V('n'), g.lit(1)), V('q')))), g.xs(g.emit(g.bin_('==', V('sp'), g.spv()))))),
                g.xs(g.asn(g.deref(V('p')), V('n'), '+')), g.xs(g.emit(V('x'))), g.xs(g.emit(g.deref(V('q')))), g.xs(g.emit(V('y'))),
                g.ret(g.bin_('+', g.bin_('*', V('r'), g.lit(2, 'llong')), V('y')))]
    f = {'ev': g.func(['llong'], [('n', ['int']), ('p', P)], body('od', '*')), 'od': g.func(['llong'], [('n', ['int']), ('p', P)], body('ev', '+'))}
    for x in f.values(): x['_proto'] = True
    f['f'] = g.func(['void'], [('n', ['int'])], [g.vdecl('z', ['int'], g.lit(100)), g.xs(g.emit(g.call('ev', V('n'), g.addr(V('z'))))), g.xs(g.emit(V('z')))])
    return lang.Unit(g.program(f), [('f', [k], None) for k in range(7)])
def wide(c):
    """variadic calls with up to 40 variable arguments: values, count and the stack pointer after the call"""
    out = []
    for _ in range(c.n(4, 20)):
        G_ = G(c.rng); G_.va('va'); runs = []
        for k in list(range(0, 14)) + [17, 25, 40]:
            n, q = min(k, 11), c.rng.randint(0, 6 ** min(k, 11) - 1); ts, z = [], q
            for i in range(k): ts.append(VAT[z % 6]); z //= 6
            env = {'a': 'int', 'b': 'llong'}
            args = [g.cast([t], G_.expr(env, 1)[0]) for t in ts]
            fixed = [g.lit(q), g.lit(k)] + [G_.arg(env, p) for p in G_.meta['va']['ps'][2:]]
            f = 'w%d' % k
            G_.funs[f] = g.func(['void'], [('a', ['int']), ('b', ['llong'])], [g.vdecl('ar', g.arr(['int'], 3)), g.xs(g.asn(g.idx(V('ar'), g.lit(1)), V('a'))), g.vdecl('sp', ['int'], g.spv()),
                g.xs(g.asn(V('sp'), g.spv())), g.xs(g.emit(g.call('va', *fixed, *args))), g.xs(g.emit(g.bin_('==', V('sp'), g.spv()))), g.xs(g.emit(g.idx(V('ar'), g.lit(1))))])
            runs += [(f, [g.rval(c.rng, 'int'), g.rval(c.rng, 'llong')], None) for _ in range(2)]
        out.append(lang.Unit(g.program(G_.funs, TAGS), runs, extra='#include <stddef.h>\n'))
    return out
def units(c, n):
    out = [mutual(c.rng)]
    for _ in range(n):
        G_ = G(c.rng); k = 0
        plan = ['byref', 'vap', 'va', 'mk', 'mk', 'sig0', 'sig0', 'sig1', 'sig2', 'apply'] + ['plain'] * 5
        c.rng.shuffle(plan)
        for x in plan:
            k += 1; n_ = 'f%d' % k
            if x == 'plain': G_.plain(n_)
            elif x.startswith('sig'): G_.plain(n_, SIGS[int(x[3])])
            elif x == 'apply': G_.apply(n_, c.rng.randint(0, 2))
            else: getattr(G_, x)(n_)
        runs = []
        for n_, m in G_.meta.items():
            if m['kind'] != 'plain': continue
            for _ in range(4): runs.append((n_, [c.rng.randint(0, 3) if p == 'd' else g.rval(c.rng, p) for p in m['ps']], None))
        out.append(lang.Unit(g.program(G_.funs, TAGS), runs, extra='#include <stddef.h>\n'))
    return out
class Sc:
    """identifiers of file scope, parameters and nested blocks drawn from one small pool of names: every use denotes the innermost visible declaration, and
    objects that are hidden keep their values"""
    POOL = ['a', 'b', 'c', 'x', 'n']
    def __init__(self, rng): self.rng = rng; self.funs = {}; self.k = 0; self.loop = 0; self.calls = 0
    def use(self, env):
        e, tq = g.ExprGen(self.rng, env).gen(self.rng.randint(0, 2), list(env), []); return e, tq
    def to(self, env, t):
        e, tq = self.use(env); return e if g.strict(t, tq) else g.cast([t], e)
    def dump(self, env): return [g.xs(g.emit(V(n))) for n in sorted(env)]
    def set(self, env):
        v = self.rng.choice(sorted(env)); return g.xs(g.asn(V(v), g.cast([env[v]], self.use(env)[0])))
    def block(self, env, depth, here=()):
        """items of a block entered with env; here = names already declared in this very scope"""
        r = self.rng; env = dict(env); here = set(here); b = []
        for _ in range(r.randint(1, 4)):
            x = r.random(); free = [n for n in self.POOL if n not in here]
            if x < .3 and free:
                n = r.choice(free); t = r.choice(g.INTS)
                rest = {m: y for m, y in env.items() if m != n}
                b.append(g.vdecl(n, [t], self.to(rest, t) if rest else g.lit(r.randint(0, 1)) if t in ('int', 'bool') else g.cast([t], g.lit(r.randint(0, 99)))))
                env[n] = t; here.add(n)
            elif x < .45: b.append(self.set(env))
            elif x < .55: b.append(g.xs(g.emit(self.use(env)[0])))
            elif x < .7 and depth: b.append(g.block(*self.block(env, depth - 1)))
            elif x < .78 and depth: b.append(g.if_(self.use(env)[0], g.block(*self.block(env, depth - 1)), g.block(*self.block(env, depth - 1))))
            elif x < .93 and depth:
                n = r.choice(self.POOL); rest = {m: y for m, y in env.items() if m != n}; e2 = dict(env); e2[n] = 'int'
                self.loop += 1
                body = [g.xs(g.emit(V(n)))] + self.block({m: y for m, y in e2.items()}, depth - 1)
                self.loop -= 1
                # the counter is protected from the body by a bound taken from a second object that nothing else can name
                self.k += 1; k = 'k_%d' % self.k
                b.append(g.vdecl(k, ['int'], g.lit(0)))
                b.append(g.for_([g.vdecl(n, ['int'], self.to(rest, 'int') if rest else g.lit(3))], g.bin_('<', V(k), g.lit(r.randint(1, 3))), g.xs(g.comma(g.inc(V(k)), g.asn(V(n), g.cast(['int'], g.bin_('^', V(n), V(k)))))), g.block(*body)))
                b.append(g.xs(g.emit(V(n))) if n in env else g.xs(g.emit(V(k))))
            else:
                f = [n for n in self.funs]
                if f and not self.loop and self.calls < 2:
                    self.calls += 1; h = r.choice(f); ps = self.funs[h]['ps']
                    b.append(g.xs(g.call(h, *[self.to(env, p['t'][0]) for p in ps])))
            if r.random() < .5: b += self.dump(env)
        return b + self.dump(env)
    def unit(self):
        r = self.rng; gl = []
        for n in r.sample(self.POOL, r.randint(2, 5)):
            t = r.choice(g.INTS); gl.append((n, [t], list((g.rval(r, t) & (2 ** 64 - 1)).to_bytes(8, 'little')[:g.W[t]])))
        ge = {n: t[0] for n, t, _ in gl}; runs = []
        for i in range(4):
            ps = [(n, r.choice(g.INTS)) for n in r.sample(self.POOL, r.randint(0, 3))]
            env = dict(ge); env.update(ps)
            f = 'f%d' % i; self.calls = 0
            body = self.block(env, 3 if i else 2, [n for n, _ in ps])
            self.funs[f] = g.func(['void'], [(n, [t]) for n, t in ps], body)
            runs += [(f, [g.rval(r, t) for _, t in ps], None) for _ in range(3)]
        return lang.Unit(g.program(self.funs, {}, gl), runs)
def run(c):
    lang.validate(c, [Sc(c.rng).unit() for _ in range(c.n(60, 800))], 'scopes')
    lang.validate(c, wide(c), 'wide')
    u = units(c, c.n(60, 600))
    lang.validate(c, u, 'calls')
    n = u[1].runs[-1][0]; c.sample(dict(function=g.cfunc(n, u[1].prog['funs'][n]), args=u[1].runs[-1][1]))
if __name__ == '__main__': check.main('F02', run)
