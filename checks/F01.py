"""F01: statements execute in the order C prescribes on every path."""
import itertools
from wv import check, cgen as g, lang, build, host
TECHNIQUE = 'TLA+ small-step control-flow machine explored exhaustively by TLC over decision tapes (invariant: agrees with the big-step semantics), every path replayed in the compiled program and validated by TLC against CLang'
NOTE = 'All paths up to the decision bound of every generated program; program shapes exhaustive to nesting depth 2 (3 thorough) plus random ones.'
V = g.var
class Gen:
    def __init__(self, rng): self.rng = rng; self.n = 0; self.l = 0
    def id(self): self.n += 1; return self.n
    def probe(self): return g.xs(g.pr(self.id(), g.lit(self.n % 100)))
    def cond(self, dom=(0, 1)):
        t = g.tape(); t['dom'] = list(dom)
        return g.pr(self.id(), t)
    def true(self): x = g.lit(1); return x
    OUT = ['if', 'else', 'while', 'do', 'for', 'sw', 'swd', 'slab', 'elab', 'inf', 'forinf']
    def wrap(self, kind, mk, ctx):
        """statement of `kind` whose body is mk(ctx') with probes around"""
        P = self.probe
        c2 = dict(ctx, labels=list(ctx['labels']))
        if kind in ('if', 'else'):
            b = lambda: g.block(P(), *mk(c2), P())
            return [g.if_(self.cond(), b() if kind == 'if' else g.block(P()), g.EMPTY if kind == 'if' else b())]
        if kind in ('while', 'do', 'for', 'inf', 'forinf'):
            c2.update(brk=True, cont=True)
            if kind == 'while': c = self.cond(); return [g.while_(c, g.block(P(), *mk(c2), P()))]
            if kind == 'do': b = g.block(P(), *mk(c2), P()); return [g.do_(b, self.cond())]
            if kind == 'inf': return [g.while_(g.lit(1), g.block(g.if_(self.cond(), g.BREAK), *mk(c2), P()))]
            if kind == 'forinf':
                e = g.lit(1); e['_c'] = ''
                return [g.for_([], e, g.EMPTY, g.block(g.if_(self.cond(), g.block(P(), g.BREAK)), *mk(c2), P()))]
            i = P(); c = self.cond(); s = P()
            return [g.for_([i], c, s, g.block(P(), *mk(c2), P()))]
        if kind in ('sw', 'swd'):
            c2.update(brk=True)
            e = self.cond((1, 2, 3, 9))
            items = [g.case(1), P(), *mk(c2), P(), g.case(2), P()] 
            if kind == 'sw': items += [g.BREAK, g.DEFAULT, P(), g.case(3), P()]
            else: items = [g.DEFAULT, P(), g.case(3)] + items + [g.BREAK, g.case(7), P()]
            return [g.switch(e, *items)]
        self.l += 1; n = 'L%d' % self.l
        if kind == 'slab':
            c2['labels'].append(n)
            return [g.block(g.label(n), P(), *mk(c2), P(), g.if_(self.cond(), g.goto(n)), P())]
        c2['labels'].append(n)
        return [g.block(P(), *mk(c2), P(), g.if_(self.cond(), g.goto(n)), P(), g.label(n))]
    def actions(self, ctx):
        a = ['probe', 'return'] + (['break'] if ctx['brk'] else []) + (['continue'] if ctx['cont'] else [])
        return a + ['goto:' + l for l in ctx['labels']]
    EMP = ['eif', 'eifelse', 'eelse', 'ewhile', 'edo', 'efor', 'eforc', 'eblock', 'esw']
    def empty(self, k):
        """statements with empty parts: the conditions still have their effects"""
        E = self.rng.choice([g.EMPTY, g.block(), g.block(g.block(), g.EMPTY)]); c = self.cond()
        if k == 'eif': return [g.if_(c, E, g.EMPTY)]
        if k == 'eifelse': return [g.if_(c, E, g.block())]
        if k == 'eelse': return [g.if_(c, E, g.block(self.probe()))]
        if k == 'ewhile': return [g.while_(c, E)]
        if k == 'edo': return [g.do_(E, c)]
        if k == 'efor': return [g.for_([self.probe()], c, self.probe(), E)]
        if k == 'eforc': return [g.for_([], c, g.EMPTY, E)]
        if k == 'esw': return [g.switch(c, g.case(0), g.DEFAULT, *self.rng.choice([[], [g.BREAK], [E]]))]
        return [g.block(E)]
    def act(self, a, guard):
        if a in self.EMP: return self.empty(a)
        s = {'probe': self.probe, 'return': lambda: g.ret(), 'break': lambda: g.BREAK, 'continue': lambda: g.CONT}.get(a)
        s = s() if s else g.goto(a.split(':')[1])
        if a == 'probe' or not guard: return [s]
        return [g.if_(self.cond(), s)]
CTX = dict(brk=False, cont=False, labels=[])
def shapes(rng, depth):
    """every nesting of `depth` structures around every action"""
    for ks in itertools.product(Gen.OUT, repeat=depth):
        # collect the actions available innermost
        acts = None; j = 0
        while acts is None or j < 2 * len(acts):
            G = Gen(rng); got = []
            def mk(ctx, d=0):
                if d == depth:
                    got.append(G.actions(ctx))
                    a = G.actions(ctx)[j // 2] if acts is not None else 'probe'
                    return G.act(a, j % 2 == 0 or a.startswith('goto'))
                return G.wrap(ks[d], lambda c: mk(c, d + 1), ctx)
            b = mk(CTX)
            if acts is None: acts = got[0]; continue
            a = acts[j // 2]
            # an unguarded transfer must not make a loop without a decision
            if not (j % 2 and (a == 'probe' or a.startswith('goto'))):
                yield [G.probe(), *b, G.probe()]
            j += 1
def rand_body(G, ctx, d):
    out = []
    for _ in range(G.rng.randint(1, 3)):
        x = G.rng.random()
        if d <= 0 or x < .2: out.append(G.probe())
        elif x < .3: out += G.empty(G.rng.choice(G.EMP))
        elif x < .45: out += G.act(G.rng.choice(G.actions(ctx)), True)
        else: out += G.wrap(G.rng.choice(Gen.OUT), lambda c: rand_body(G, c, d - 1), ctx)
    return out
def empties(rng):
    for k in Gen.EMP:
        for o in [None] + Gen.OUT:
            for n in range(3):
                G = Gen(rng); mk = lambda ctx: G.empty(k)
                yield [G.probe()] + (mk(CTX) if o is None else G.wrap(o, mk, CTX)) + [G.probe()] * (n % 2)
def to_prog(bodies):
    return g.program({'f%d' % i: g.func(['void'], [], b) for i, b in enumerate(bodies)})
def flow(c, name, bodies, mx, per=12):
    """explore with Flow, replay every path"""
    units, items, where = [], [], []
    for i in range(0, len(bodies), per):
        bs = bodies[i:i + per]; u = lang.Unit(to_prog(bs), [])
        units.append(u)
    for u in units:
        for f in u.prog['order']:
            pr = g.clean(g.program({f: u.prog['funs'][f]}))
            items.append(dict(P=pr, f=f, max=mx)); where.append((u, f))
    r = c.tlc('Flow', 'INIT Init\nNEXT Next\nINVARIANT SameAsBigStep\nCHECK_DEADLOCK FALSE\n', data=dict(data=items))
    for p in r.prints:
        u, f = where[p['i'] - 1]; u.runs.append((f, [], p['tape']))
    n = len(r.prints)
    c.part(name, programs=len(bodies), paths=n, flow_states=r.distinct)
    for u in units: u.runs.sort(key=lambda x: (u.prog['order'].index(x[0]), x[2]))
    lang.validate(c, units, name + ' replay')
    c.sample(dict(function=g.cfunc(units[0].prog['order'][-1], units[0].prog['funs'][units[0].prog['order'][-1]]), tapes=[x[2] for x in units[0].runs[-4:]]))
def switches(c, n):
    units = []
    for _ in range(n):
        funs, runs = {}, []
        for k in range(6):
            t = c.rng.choice(['int', 'int', 'char', 'uchar', 'short', 'ushort', 'bool'])
            lo, hi = g.BOUND[t][0], g.BOUND[t][-1]
            mode = c.rng.choice(['dense', 'sparse', 'mixed', 'ends', 'one', 'none'])
            base = c.rng.choice([0, 1, -1, -5, 100, lo, hi - 12, c.rng.randint(lo, hi)])
            ls = {'dense': range(base, base + c.rng.randint(2, 12)), 'sparse': [c.rng.randint(lo, hi) for _ in range(5)],
                  'mixed': [base, base + 1, base + 2, base + 5, base + 6] + [c.rng.randint(lo, hi) for _ in range(3)],
                  'ends': [lo, hi, lo + 1, hi - 1, 0], 'one': [base], 'none': []}[mode]
            ls = sorted({x for x in ls if lo <= x <= hi}); c.rng.shuffle(ls)
            G = Gen(c.rng); items = []
            marks = [('case', x) for x in ls]
            if c.rng.random() < .7: marks.insert(c.rng.randint(0, len(marks)), ('default', 0))
            for m, x in marks:
                items.append(g.case(x) if m == 'case' else g.DEFAULT)
                if c.rng.random() < .8: items.append(G.probe())
                if c.rng.random() < .6: items.append(g.BREAK if c.rng.random() < .9 else g.ret())
            f = 'f%d' % k
            if not items: continue
            funs[f] = g.func(['void'], [('v', [t])], [G.probe(), g.switch(V('v'), *items), G.probe()])
            vs = {lo, hi, 0, 1}
            for x in ls: vs |= {x, x - 1, x + 1}
            runs += [(f, [x], None) for x in sorted(vs) if lo <= x <= hi]
        if funs: units.append(lang.Unit(g.program(funs), runs))
    return units
def counted(c, n):
    """loops over counters, conditions of every type, nested switches in loops, early exits"""
    units = []
    for _ in range(n):
        funs, runs = {}, []
        for k in range(6):
            ts = [c.rng.choice(g.INTS) for _ in range(3)]
            env = dict(zip('abc', ts), i='int', j='int')
            G = Gen(c.rng)
            def cnd():
                e, _ = g.ExprGen(c.rng, env).gen(c.rng.randint(0, 3), ['i', 'j', 'a', 'b', 'c'], [])
                return e
            def loop(v, ctx, d):
                n = c.rng.randint(1, 4); b = g.block(G.probe(), *body(ctx, d - 1))
                cond = g.bin_('<', V(v), g.lit(n)); st = g.xs(c.rng.choice([g.inc(V(v), '+', True), g.inc(V(v)), g.asn(V(v), g.bin_('+', V(v), g.lit(1)))]))
                if c.rng.random() < .3: cond = g.land(cond, g.lor(cnd(), g.bin_('==', V(v), g.lit(0))))
                return [g.for_([g.xs(g.asn(V(v), g.lit(0)))], cond, st, b), g.xs(g.emit(V(v)))]
            def body(ctx, d):
                out = []
                for _ in range(c.rng.randint(1, 3)):
                    x = c.rng.random()
                    if d <= 0 or x < .15: out.append(g.xs(g.emit(cnd())))
                    elif x < .3: out.append(g.if_(cnd(), g.block(*body(ctx, d - 1)), g.block(*body(ctx, d - 1)) if c.rng.random() < .6 else g.EMPTY))
                    elif x < .45 and ctx['v']:
                        out += loop(ctx['v'][0], dict(ctx, v=ctx['v'][1:], brk=True, cont=True), d)
                    elif x < .6:
                        e = g.cast(['int'], cnd()) ; ls = c.rng.sample([0, 1, 2, 3, -1, 5, 100, 255, -128], 4)
                        it = []
                        for l in ls:
                            it.append(g.case(l)); it += body(dict(ctx, brk=True), d - 2)
                            if c.rng.random() < .5: it.append(g.BREAK)
                        if c.rng.random() < .6: it += [g.DEFAULT] + body(dict(ctx, brk=True), d - 2)
                        out.append(g.switch(e, *it))
                    elif x < .8:
                        a = c.rng.choice(G.actions(ctx)); s = G.act(a, False)
                        out.append(g.if_(cnd(), s[0], g.EMPTY if c.rng.random() < .7 else G.probe()))
                    else:
                        v = c.rng.choice('abc'); e, _t = g.ExprGen(c.rng, env).assign(3, v, ['i', 'j'] + [x for x in 'abc' if x != v], [v])
                        out.append(g.xs(e)); out.append(g.xs(g.emit(V(v))))
                return out
            b = body(dict(brk=False, cont=False, labels=[], v=['i', 'j']), 4)
            f = 'f%d' % k
            funs[f] = g.func(['void'], list(zip('abc', [[t] for t in ts])), [g.vdecl('i', ['int'], g.lit(0)), g.vdecl('j', ['int'], g.lit(7))] + b)
            runs += [(f, [g.rval(c.rng, t) for t in ts], None) for _ in range(6)]
        units.append(lang.Unit(g.program(funs), runs))
    return units
def run(c):
    flow(c, 'shapes1', list(shapes(c.rng, 1)), 6)
    flow(c, 'shapes2', list(shapes(c.rng, 2)), c.n(5, 7))
    flow(c, 'empty', list(empties(c.rng)), 6)
    if c.thorough:
        b = list(shapes(c.rng, 3)); c.rng.shuffle(b)
        for i in range(0, len(b), 1500): flow(c, 'shapes3.%d' % (i // 1500), b[i:i + 1500], 5)
    def rb(): G = Gen(c.rng); return [G.probe(), *rand_body(G, CTX, 4), G.probe()]
    flow(c, 'random', [rb() for _ in range(c.n(120, 1500))], 7)
    lang.validate(c, switches(c, c.n(24, 200)), 'switch')
    lang.validate(c, counted(c, c.n(40, 400)), 'counted')
if __name__ == '__main__': check.main('F01', run)
