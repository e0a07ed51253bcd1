"""M01: macros, generic selection and conditional sections."""
import json, os
from wv import check, cgen as g, lang, build, host
TECHNIQUE = 'TLA+ macro expansion by tree substitution (Macros) over the CLang interpreter and a line machine of preprocessor directives (Directives, model-checked against the structural reading of sections); generated programs compiled, run and validated by TLC'
NOTE = 'Macro bodies, arguments, nestings, generic selections and directive sequences generated at random; directive machine exhaustive to 6 lines (7 thorough). Trace validation, not proof.'
P6 = ['int', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
GV = dict(ga='int', gb='uint', gc='llong', gd='ullong')            # globals nobody writes
ANY = [[t] for t in g.INTS] + [['ptr', ['int']], ['ptr', ['char']], ['ptr', ['uchar']], ['ptr', ['st', 'S1']], ['st', 'S1'], ['st', 'S2'], ['un', 'U1'], ['ptr', ['ptr', ['int']]], ['float'], ['double'], ['ptr', ['double']], ['ptr', ['void']]]
TAGS = dict(S1=[('x', ['int']), ('c', ['char']), ('w', ['llong'])], S2=[('x', ['int']), ('h', ['short'])], U1=[('x', ['int']), ('q', ['ullong'])])

def occ(t, n, M):
    """how many times the value of parameter n may be computed"""
    if isinstance(t, list): return sum(occ(x, n, M) for x in t)
    if not isinstance(t, dict): return 0
    if t.get('k') == 'var': return int(t['n'] == n)
    if t.get('k') == 'mac':
        m = M[t['n']]; return sum(max(1, occ(m['body'], p, M)) * occ(a, n, M) for p, a in zip(m['ps'], t['args'])) + 3 * sum(occ(a, n, M) for a in t['args'][len(m['ps']):])
    return sum(occ(v, n, M) for k, v in t.items() if k[0] != '_')

class XG(g.ExprGen):
    """random expressions with macro uses; U: the usable macros"""
    def __init__(self, rng, env, U, M, lvs=None):
        super().__init__(rng, env, lvs=lvs); self.U = U; self.M = M; self.p = .3
    def exact(self, t, d, rd, wr):
        for _ in range(5):
            e, u = self.gen(d, rd, wr)
            if u == t: return e
        return g.cast([t], e)
    def use(self, m, d, rd, wr):
        r = self.rng; w = list(wr); r.shuffle(w); args = []
        for p, (kind, t) in zip(m['ps'], m['_ps']):
            if kind == 'lv':
                c = [v for v in w if self.env[v] == t]
                if not c: return None
                w.remove(c[0]); args.append(self.lv(c[0]))
            else: args.append(None)
        for i, (p, (kind, t)) in enumerate(zip(m['ps'], m['_ps'])):
            if kind == 'val':
                mine = []
                if w and (m['_seq'] or m['_occ'][i] <= 1) and r.random() < .5: mine = [w.pop()]
                args[i] = self.exact(t, d - 1, rd, mine)
        for _ in range(r.randint(0, 3) if m['va'] else 0): args.append(self.exact('int', d - 2, rd, []))
        return g.mac(m['_id'], m['_c'], args, m['_obj'])
    def gen(self, d, rd, wr):
        if d > 0 and self.U and self.rng.random() < self.p:
            m = self.rng.choice(self.U); e = self.use(m, d, rd, wr)
            if e is not None: return e, m['_t']
        return super().gen(d, rd, wr)

class Unit:
    def __init__(self, rng, n):
        self.r = rng; self.M = {}; self.X = []; self.S = []; self.pend = []; self.n = 0; self.funs = {}; self.runs = []; self.used = set()
        helpers = dict(h0=0, h1=1, h2=2, h3=3)
        for h, k in helpers.items():
            e = g.lit(k + 1)
            for i in range(k): e = g.bin_('+', g.bin_('*', e, g.lit(3 + k)), g.bin_('&', g.var('p%d' % i), g.lit(0xffff)))
            self.funs[h] = g.func(['int'], [('p%d' % i, ['int']) for i in range(k)], [g.ret(e)])
        for i in range(n): self.fun(i)
    def name(self): self.n += 1; return 'M%d' % self.n
    # --- definitions -------------------------------------------------------------------
    def add(self, m, late=False):
        m['_id'] = self.r.choice(['', 'v']) + m['_c'] + '_%d' % len(self.M); self.M[m['_id']] = m
        m['_occ'] = [max(occ(m['body'], p, self.M), 0) for p in m['ps']]
        m['_deps'] = self.deps(m['body'])
        self.pend.append(m)
        (self.S if m['st'] else self.X).append(m)
        return m
    def deps(self, t):
        if isinstance(t, list): return set().union(*[self.deps(x) for x in t]) if t else set()
        if not isinstance(t, dict): return set()
        s = {t['n']} if t.get('k') == 'mac' else set()
        for k, v in t.items():
            if k[0] != '_': s |= self.deps(v)
        return s
    def params(self, lo, hi):
        r = self.r; ps = []
        for i in range(r.randint(lo, hi)):
            ps.append((r.choice('abxyzn') + str(i), ('lv', r.choice(g.INTS)) if r.random() < .2 else ('val', r.choice(P6))))
        return ps
    def plain(self): return [m for m in self.X if not m['va']] if self.r.random() < .5 else self.X
    def xmacro(self):
        r = self.r; x = r.random()
        c = self.name()
        if x < .12:                                       # object-like
            G = XG(r, dict(GV), self.X, self.M); e, t = G.gen(r.choice([0, 1, 2]), list(GV), [])
            if e['k'] == 'mac' and e['_obj']: e = g.una('+', e); t = g.promote(t)
            return self.add(dict(g.macro(c, [], e, obj=True), _ps=[], _t=t, _seq=False))
        if x < .25:                                       # parameters used more than once, in sequence
            ta, tb = r.choice(P6), r.choice(P6); a, b = g.var('a'), g.var('b'); k = r.choice(['max', 'and', 'or', 'comma', 'cnd'])
            body, t = {'max': (g.cond(g.bin_(r.choice(g.CMP), a, b), a, b), g.common(ta, tb)), 'and': (g.land(a, g.land(b, a)), 'int'), 'or': (g.lor(g.bin_('==', a, b), b), 'int'),
                       'comma': (g.comma(a, g.comma(b, a)), ta), 'cnd': (g.cond(a, g.bin_('+', a, g.lit(1)), b), g.common(g.common(ta, 'int'), tb))}[k]
            return self.add(dict(g.macro(c, ['a', 'b'], body), _ps=[('val', ta), ('val', tb)], _t=t, _seq=True))
        if x < .40:                                       # variadic
            E = r.choice(['...', '__VA_ARGS__']); ps = ['a'] if r.random() < .7 else []
            h = lambda k: g.call('h%d' % k, *([g.var('a')] if ps else []), g.etc(E)) if r.random() < .6 else g.call('h%d' % k, g.etc(E), *([g.var('a')] if ps else []))
            o = len(ps); cs = [(i, h(i + o) if i + o else g.call('h0')) for i in range(0, 4 - o)]
            if not o: cs[0] = (0, g.call('h0'))
            r.shuffle(cs); cs = cs[:r.randint(1, len(cs))] + [(-1, r.choice([g.lit(-7), g.etcn(E), g.bin_('*', g.etcn(E), g.var('a')) if ps else g.lit(3)]))]
            body = g.genn(*cs, c=E)
            if r.random() < .4: body = g.bin_('+', g.bin_('&', body, g.lit(0xfffffff)), g.etcn(E))
            v = [m for m in self.X if m['va']]
            if v and r.random() < .5:
                m = r.choice(v); args = [g.var('a') if ps and r.random() < .6 else g.lit(r.randint(-9, 9)) for _ in m['ps']]
                args += r.choice([[g.etc(E)], [g.etc(E), g.lit(4)], [g.lit(5), g.etc(E)], [g.etc(E), g.etc(E)]])
                body = g.bin_('^', g.mac(m['_id'], m['_c'], args), r.choice([g.etcn(E), g.lit(77)]))
            return self.add(dict(g.macro(c, ps, body, va=True), _ps=[('val', 'int')] * len(ps), _t='int', _seq=False))
        ps = self.params(0, 3); env = dict(GV); env.update({n: t for n, (k, t) in ps})
        G = XG(r, env, self.plain(), self.M)
        e, t = G.gen(r.choice([1, 2, 2, 3]), list(GV) * (r.random() < .4) + [n for n, (k, _) in ps if k == 'val'], [n for n, (k, _) in ps if k == 'lv'])
        if e['k'] == 'lit' and ps: e = g.bin_('+', e, g.lit(1)); t = g.common(t, 'int')
        return self.add(dict(g.macro(c, [n for n, _ in ps], e), _ps=[q for _, q in ps], _t=t, _seq=False))
    def smacro(self):
        r = self.r; c = self.name(); ps = self.params(0, 3)
        if r.random() < .4: ps.append(('s%d' % len(ps), ('st', None)))
        env = dict(GV); env.update({n: t for n, (k, t) in ps if k != 'st'})
        body = self.body(env, list(GV) + [n for n, (k, _) in ps if k == 'val'], [n for n, (k, _) in ps if k == 'lv'], [n for n, (k, _) in ps if k == 'st'], 2, dict(loop=False, top=True, m=c))
        return self.add(dict(g.macro(c, [n for n, _ in ps], g.block(*body), st=True), _ps=[q for _, q in ps], _t=None, _seq=False))
    # --- statements ---------------------------------------------------------------------
    def body(self, env, rd, wr, sts, d, cx):
        r = self.r; env = dict(env); rd, wr = list(rd), list(wr); out = []
        if r.random() < .6:
            t = r.choice(['int', 'int', 'uint', 'llong']); q = 'q_%s_%d' % (cx['m'], d); G = XG(r, env, self.X, self.M)
            out.append(g.vdecl(q, [t], G.exact(t, 1, rd, []))); env[q] = t; wr.append(q)
        for _ in range(r.randint(1, 3)): out += self.stmt(env, rd, wr, sts, d, cx)
        return out
    def stmt(self, env, rd, wr, sts, d, cx, lvs=None):
        r = self.r; x = r.random(); G = XG(r, env, self.X, self.M, lvs)
        if sts and x < .25: return [g.xs(g.var(r.choice(sts)))]
        if d > 0 and x < .40:
            i = 'i_%s_%d%d' % (cx['m'], d, r.randint(0, 9)); c2 = dict(cx, loop=True)
            return [g.for_([g.vdecl(i, ['int'], g.lit(0))], g.bin_('<', g.var(i), g.lit(r.randint(1, 3))), g.xs(g.inc(g.var(i), '+', True)), g.block(*self.body(dict(env, **{i: 'int'}), rd + [i], wr, sts, d - 1, c2)))]
        if d > 0 and x < .55:
            c, _ = G.gen(1, rd, wr); B = lambda: g.block(*self.body(env, rd, wr, sts, d - 1, cx))
            return [g.if_(c, B(), B() if r.random() < .5 else g.EMPTY)]
        if d > 0 and x < .62:
            c = G.exact('int', 1, rd, []); B = lambda: self.body(env, rd, wr, sts, d - 1, cx)
            return [g.switch(g.bin_('&', c, g.lit(3)), g.case(0), g.block(*B()), g.BREAK, g.case(2), g.block(*B()), g.DEFAULT, g.block(*B()))]
        if x < .72 and (cx['loop'] or cx['top']):
            c, _ = G.gen(1, rd, []); return [g.if_(c, r.choice([g.BREAK, g.CONT, g.CONT]), g.EMPTY)]
        if x < .85 and wr:
            v = r.choice(wr); e, _ = G.assign(2, v, rd, [w for w in wr if w != v]); return [g.xs(e)]
        if x < .93 and self.S:
            m = r.choice(self.S); e = self.suse(m, G, rd, wr, sts, d)
            if e is not None: return [g.xs(e)]
        e, _ = G.gen(2, rd, wr); return [g.xs(g.emit(e))]
    def suse(self, m, G, rd, wr, sts, d):
        r = self.r; w = list(wr); r.shuffle(w); args = []
        for p, (kind, t) in zip(m['ps'], m['_ps']):
            if kind == 'lv':
                c = [v for v in w if G.env[v] == t]
                if not c: return None
                w.remove(c[0]); args.append(G.lv(c[0]))
            else: args.append(None)
        for i, (kind, t) in enumerate(m['_ps']):
            if kind == 'val': args[i] = G.exact(t, 1, rd, [])
            if kind == 'st':
                if not w: return None
                v = r.choice(w); args[i] = None
                if d > 0 and self.S and r.random() < .3:
                    m2 = r.choice(self.S)
                    if m2 is not m and m['_id'] not in m2['_deps']: args[i] = self.suse(m2, G, rd, [v], sts, 0)
                if args[i] is None: args[i], _ = G.assign(1, v, rd, [])
        return g.mac(m['_id'], m['_c'], args, m['_obj'])
    # --- generic selection ----------------------------------------------------------------
    def gmacro(self):
        r = self.r; c = self.name(); ts = r.sample(ANY, r.randint(1, 6)); cs = []
        for t in ts:
            u = r.choice(P6); e = g.lit(g.rval(r, u), u)
            if g.isint(t) and r.random() < .3: e = g.bin_('+', g.var('e'), g.lit(5)) if len([x for x in ts if not g.isint(x)]) == 0 else e
            cs.append((t, e))
        cs.append((['default'], g.lit(g.rval(r, 'llong'), 'llong')))
        m = dict(g.macro(c, ['e'], g.gen(g.var('e'), *cs, c=r.choice(['generic', '_Generic']))), _ps=[('any', ts)], _t=None, _seq=False)
        m['_id'] = c; self.M[c] = m; m['_occ'] = [1]; m['_deps'] = set(); self.pend.append(m)
        return m
    def anyarg(self, t):
        """an expression of exactly type t (an lvalue, a cast, an operator's result)"""
        r = self.r; k = t[0]; V = g.var
        o = [V({'st': t[1].lower() if k == 'st' else '', 'un': 'u1'}.get(k) or '')] if k in ('st', 'un') else []
        if k in ('st', 'un'): return r.choice(o + [g.deref(V('p' + t[1].lower()))] if t[1] == 'S1' else o)
        if k == 'ptr':
            q = t[1]
            if q == ['int']: return r.choice([V('pi'), g.addr(g.idx(V('ai'), g.lit(1))), g.bin_('+', V('pi'), g.lit(1)), g.addr(g.mem(V('s1'), 'x')), g.addr(g.arrow(V('ps1'), 'x')), g.idx(V('pp'), g.lit(0)), g.deref(V('ppi'))])
            if q == ['char']: return r.choice([g.addr(g.mem(V('s1'), 'c')), g.cast(t, V('pi'))])
            if q == ['st', 'S1']: return r.choice([V('ps1'), g.addr(V('s1')), g.bin_('+', V('ps1'), g.lit(0))])
            if q == ['ptr', ['int']]: return r.choice([V('ppi'), g.addr(g.idx(V('pp'), g.lit(1)))])
            return g.cast(t, V('pi'))
        if k in ('float', 'double'): return r.choice([dict(g.flit(r.choice([1.5, 0.25, 8.0]), k)), g.cast(t, V('l0'))])
        o = [g.cast(t, V('l0')), g.idx(V('A' + k), g.lit(1)), V('L' + k), g.deref(V('P' + k))]
        if k == 'int': o += [g.una('!', V('pi')), g.bin_('<', V('Lullong'), V('Lchar')), g.bin_('+', V('Lchar'), V('Lshort')), g.una('-', V('Luchar')), g.land(V('Lllong'), V('Lint')), g.mem(V('s1'), 'x'), g.call('h0'), g.inc(V('Lint'), '+', True), g.asn(V('Lint'), V('Lchar'))]
        if k == 'char': o += [g.mem(V('s1'), 'c'), g.arrow(V('ps1'), 'c')]
        if k == 'short': o += [g.mem(V('s2'), 'h')]
        if k == 'llong': o += [g.mem(V('s1'), 'w'), g.bin_('*', V('Lint'), V('Lllong')), g.cond(V('Lint'), V('Lint'), V('Lllong')), g.arrow(V('ps1'), 'w')]
        if k == 'ullong': o += [g.mem(V('u1'), 'q'), g.bin_('|', V('Lullong'), V('Lllong')), g.asn(V('Lullong'), V('Luint'))]
        if k == 'uint': o += [g.bin_('-', V('Luint'), V('Lint')), g.bin_('>>', V('Luint'), g.lit(3, 'llong'))]
        if k == 'long': o += [g.bin_('-', V('pi'), V('pi'))]
        return r.choice(o)
    def gfun(self, i):
        r = self.r; b = []; V = g.var
        b += [g.vdecl('l0', ['int'], g.cast(['int'], V('v0'))), g.vdecl('ai', g.arr(['int'], 3)), g.vdecl('pi', g.ptr(['int']), g.addr(g.idx(V('ai'), g.lit(0)))), g.vdecl('pp', g.arr(g.ptr(['int']), 2)),
              g.vdecl('ppi', g.ptr(g.ptr(['int'])), g.addr(g.idx(V('pp'), g.lit(0)))), g.vdecl('s1', g.st('S1')), g.vdecl('s2', g.st('S2')), g.vdecl('u1', g.un('U1')), g.vdecl('ps1', g.ptr(g.st('S1')), g.addr(V('s1')))]
        for t in g.INTS: b += [g.vdecl('L' + t, [t], g.cast([t], V('v0'))), g.vdecl('A' + t, g.arr([t], 2)), g.vdecl('P' + t, g.ptr([t]), g.addr(g.idx(V('A' + t), g.lit(0)))), g.xs(g.asn(g.idx(V('A' + t), g.lit(1)), g.cast([t], V('v0'))))]
        ms = [self.gmacro() for _ in range(3)]
        for m in ms:
            for _ in range(6):
                t = r.choice(m['_ps'][0][1]) if r.random() < .7 else r.choice(ANY)
                b.append(g.xs(g.emit(g.mac(m['_id'], m['_c'], [self.anyarg(t)]))))
        for _ in range(4):
            ts = r.sample(ANY, r.randint(1, 5)); t = r.choice(ts); last = r.random() < .5
            cs = [(x, g.lit(j + 10, r.choice(P6))) for j, x in enumerate(ts)] + ([(['default'], g.lit(99))] if last else [])
            b.append(g.xs(g.emit(g.gen(self.anyarg(t), *cs, c=r.choice(['generic', '_Generic'])))))
        b += [g.xs(g.emit(V('L' + t))) for t in g.INTS]
        return g.func(['void'], [('v0', ['llong'])], b), [[g.rval(r, 'llong')] for _ in range(3)]
    # --- functions ----------------------------------------------------------------------------
    def defs(self):
        """the pending definitions"""
        p, self.pend = self.pend, []; r = self.r
        o = []
        for m in p:
            t = g.cmacro(m)
            if r.random() < .2: t = t.replace('#define ', '# define ')
            if r.random() < .2: t = t.replace(' do { ', ' do { \\\n  ')
            if r.random() < .15: t = t.rstrip('\n') + ' /* %s */\n' % m['_c']
            o.append(t)
        return ''.join(o)
    def redefine(self):
        """#undef of a macro no other uses, and a new definition of the name"""
        r = self.r; c = [m for m in self.X if not any(m['_id'] in x['_deps'] for x in self.M.values()) and m not in self.pend]
        if not c: return ''
        m = r.choice(c); self.X.remove(m); pre = '#undef %s\n' % m['_c']
        n = self.n; save = self.name; self.name = lambda: m['_c']
        try: self.xmacro()
        finally: self.name = save
        return pre
    def fun(self, i):
        r = self.r; pre = ''
        if i and r.random() < .5: pre = self.redefine()
        if i % 4 == 3: f, vs = self.gfun(i)
        else:
            for _ in range(4): self.xmacro()
            for _ in range(2): self.smacro()
            ps = {'a%d' % k: t for k, t in enumerate(r.sample(g.INTS, 4))}
            env = dict(GV); env.update(ps); lvs = {}; d = []; wr = list(ps)
            for k, t in enumerate(r.choice([['int', 'int', 'llong'], ['char', 'int', 'ushort'], ['uint', 'int', 'ullong']])):
                kind = r.choice(['reg', 'elem', 'ptr']); n = 'm%d' % k; env[n] = t
                if kind == 'reg': d.append(g.vdecl(n, [t], g.lit(g.rval(r, t), t)))
                else:
                    d += [g.vdecl('r' + n, g.arr([t], 3)), g.xs(g.asn(g.idx(g.var('r' + n), g.lit(1)), g.lit(g.rval(r, t), t)))]
                    lvs[n] = g.idx(g.var('r' + n), g.lit(1))
                    if kind == 'ptr': d.append(g.vdecl('p' + n, g.ptr([t]), g.addr(g.idx(g.var('r' + n), g.lit(1))))); lvs[n] = g.deref(g.var('p' + n))
                wr.append(n)
            G = XG(r, env, self.X, self.M, lvs); G.p = .5; b = d
            for _ in range(r.randint(3, 6)):
                e, _ = G.gen(3, list(GV), wr); b.append(g.xs(g.emit(e)))
                m = r.choice(self.S); e = self.suse(m, G, list(GV), wr, [], 1)
                if e is not None:
                    s = g.xs(e); x = r.random(); j = 'j%d' % len(b)
                    if x < .3: s = g.for_([g.vdecl(j, ['int'], g.lit(0))], g.bin_('<', g.var(j), g.lit(3)), g.xs(g.inc(g.var(j), '+', True)), r.choice([s, g.block(s, g.xs(g.emit(g.var(j))))]))
                    elif x < .5: s = g.if_(G.gen(1, list(GV), [])[0], s, r.choice([g.EMPTY, g.xs(g.emit(g.lit(5)))]))
                    b.append(s)
                b += [g.xs(g.emit(G.lv(n))) for n in wr]
            f = g.func(['void'], [(n, [t]) for n, t in ps.items()], b)
            vs = [[g.rval(r, t) for t in ps.values()] for _ in range(4)]
        n = 'f%d' % i; f['_pre'] = pre + self.defs(); self.funs[n] = f
        self.runs += [(n, v, None) for v in vs]
    def unit(self):
        r = self.r
        p = g.program(self.funs, TAGS, [(n, [t], g.tobytes(g.rval(r, t), t)) for n, t in GV.items()])
        p['macros'] = {k: m for k, m in self.M.items()} or {'_': g.macro('_', [], g.lit(0))}
        return lang.Unit(p, self.runs)

def consts(c, n):
    """macros in constant contexts: initialisers, enumerators, array sizes, case labels"""
    units = []
    for _ in range(n):
        U = Unit(c.rng, 0); ms = []
        for _ in range(5):
            ps = [('p%d' % i, ('val', 'int')) for i in range(c.rng.randint(0, 2))]
            G = XG(c.rng, {a: 'int' for a, _ in ps}, [m for m in ms], U.M)
            e = None
            for _ in range(30):
                e, t = G.gen(2, [a for a, _ in ps], [])
                if t == 'int' and '"comma"' not in json.dumps(e): break
            else: e = g.bin_('+', g.lit(3), g.lit(4))
            ms.append(U.add(dict(g.macro(U.name(), [a for a, _ in ps], e), _ps=[q for _, q in ps], _t='int', _seq=False)))
        pre = U.defs(); k = 0
        for m in ms:
            for _ in range(2):
                u = g.mac(m['_id'], m['_c'], [g.lit(c.rng.choice([0, 1, 2, 3, 7, 100, -1, 255])) for _ in m['ps']]); t = g.cx(u); k += 1
                n = 'k%d' % k; z = g.bin_('+', g.bin_('&', u, g.lit(15)), g.lit(1))
                U.funs[n] = g.func(['void'], [], [g.xs(g.emit(u))] * 3 + [g.xs(g.emit(z)), g.xs(g.emit(g.bin_('&', u, g.lit(7))))])
                U.funs[n]['_text'] = pre + ('static int v_%s = %s;\nenum { e_%s = %s };\nstatic char y_%s[(%s & 15) + 1];\nstatic void %s(void) {\n  E_(%s);\n  E_(v_%s);\n  E_((int)e_%s);\n  E_((int)sizeof(y_%s));\n'
                    '  switch (%s) { case %s & 7: E_(%s & 7); break; default: E_(-12345); }\n}\n') % (n, t, n, t, n, t, n, t, n, n, n, '(%s) & 7' % t, '(%s)' % t, '(%s)' % t)
                pre = ''
                U.runs.append((n, [], None))
        units.append(U.unit())
    return units

# --- directives ------------------------------------------------------------------------------
GARB = ['this is not C', '))) ((( }}', "don't", '"unfinished', '@ $ `', '#error no', '#include "nosuch.h"', '#pragma what', '# unknown x', '#', 'int main(void) { return 1; }', '#define K0 1 2 3', '#undef K1', "'", '1x 0b3 08 1e+', '\\ \\ x',
        '/* #endif */ x', '// #endif', '"#else" x', 'x #endif', '#elifx', '#endiff', '# define K1', '#define K2 (', 'static int K3 = ;', '/* # else */ + #', '# /* */', 'a = b ? c : d; #if', 'int bad(', '#endifx 1', '#if0', '#elsewhere']
GCOND = ['FOO > 3', 'x', 'defined FOO', '2', '(1)', '0 1', '!__WCPL__', 'defined(FOO)', '-1', '"0"']
NAMES = ['K0', 'K1', 'K2', 'K3']
def sp(r): return r.choice(['', '', ' ', '  ', '\t', '   '])
def tail(r): return r.choice(['', '', '', '', ' ', '  ', ' /* c */', ' // #endif', '\t', ' /* a */ /* b */'])
def hash_(r): return r.choice(['#', '#', '#', '# ', '#  ', '#\t', ' #', '  # ', '\t#', '/* c */ #'])
def render(r, l, skipped):
    k = l['k']
    if k == 'if' or k == 'elif':
        if l['c'] == 'x' or l.get('g'): t = '%s %s' % (k, r.choice(GCOND))
        elif k == 'if' and r.random() < .4: t = 'ifdef __WCPL__' if l['c'] == 't' else 'ifndef __WCPL__'
        else: t = k + ' ' + r.choice(['1', 'defined(__WCPL__)', 'defined( __WCPL__ )'] if l['c'] == 't' else ['0', '!defined(__WCPL__)', '! defined (__WCPL__)'])
        if skipped and k == 'if' and r.random() < .3: t = r.choice(['ifdef ', 'ifndef ']) + r.choice(['FOO', 'X1', 'K0'])
        return hash_(r) + t + tail(r)
    if k in ('else', 'endif'): return hash_(r) + k + tail(r)
    if k == 'text': return (sp(r) + r.choice(GARB)) if skipped else r.choice(['this is not C', '))) (((', '@', '#error no', '#unknown', 'x;', '# nothing here'])
    if k == 'blank': return r.choice(['', ' ', '\t', '/* */', '// #else'])
    if k == 'def':
        ps = '' if l['np'] < 0 else '(%s)' % ', '.join('abc'[:l['np']])
        b = '+'.join([str(l['v'])] + list('abc'[:max(0, l['np'])]))
        return hash_(r) + 'define%s%s%s%s' % (r.choice([' ', '  ', '\t']), l['n'], ps, ' ' + (b if b.isdigit() and r.random() < .5 else '(%s)' % b)) + tail(r)
    if k == 'undef': return hash_(r) + 'undef ' + l['n'] + tail(r)
    if k == 'decl': return sp(r) + 'static int %s[2];' % l['n']
    a = '' if l['na'] < 0 else '(%s)' % ', '.join([str(l['a'])] * l['na'])
    return sp(r) + 'static int u%d(void) { return %s%s; }' % (l['id'], l['n'], a)
def lines(r, n):
    """a sequence of lines, mostly well-formed; the mirror only steers the generator"""
    out, st, ms, ids = [], [], {}, []
    wrong = r.random() < .35
    for _ in range(n):
        live = not st or st[-1][0]; outer = not st or st[-1][2]; x = r.random()
        if x < .16 and len(st) < 4:
            cnd = r.choice('ttff'); l = dict(k='if', c=cnd)
            if not live: l['g'] = r.random() < .4; st.append([False, True, False])
            else: st.append([cnd == 't', cnd == 't', True])
        elif x < .36 and st:
            f = st[-1]; y = r.random()
            if y < .45: l = dict(k='endif'); st.pop()
            elif len(f) == 4 and not (wrong and r.random() < .1): l = dict(k='endif'); st.pop()
            elif y < .7: l = dict(k='else'); f[0] = f[2] and not f[1]; f[1] = True; f.append(1) if len(f) == 3 else None
            else:
                cnd = r.choice('ttff'); l = dict(k='elif', c=cnd)
                if f[1] or not f[2]: l['g'] = r.random() < .4
                f[0] = f[2] and not f[1] and cnd == 't'; f[1] = f[1] or f[0]
        elif x < .40: l = dict(k='blank')
        elif x < .58 and not live: l = dict(k='text')
        else:
            nm = r.choice(NAMES); y = r.random()
            if live and not wrong: y = r.choice([.1] * (nm not in ms) + [.4] * (nm in ms) + [.7] * 3 * (nm in ms) + [.99])
            if y < .35:
                l = dict(k='def', n=nm, np=r.choice([-1, -1, 0, 1, 2]), v=r.randint(0, 99))
                if live and nm not in ms: ms[nm] = l['np']
            elif y < .5:
                l = dict(k='undef', n=nm)
                if live: ms.pop(nm, None)
            elif y < .9:
                l = dict(k='use', n=nm, na=ms.get(nm, -1) if not (wrong and r.random() < .1) else r.choice([-1, 0, 1, 2]), id=len(out), a=r.randint(1, 9))
                if live: ids.append(len(out))
            else: l = dict(k='decl', n='V%d' % len(out) if not (wrong and r.random() < .2) else r.choice(NAMES))
        out.append(l)
    while st and not (wrong and r.random() < .1): out.append(dict(k='endif')); st.pop()
    if wrong and r.random() < .25:
        out.insert(r.randint(0, len(out)), r.choice([dict(k='endif'), dict(k='else'), dict(k='elif', c='t'), dict(k='text'), dict(k='if', c='t'), dict(k='if', c='f'), dict(k='if', c='x'), dict(k='def', n=r.choice(['true', 'NULL', '__WCPL__']), np=-1, v=1), dict(k='undef', n=r.choice(['true', '__VA_ARGS__', '__DATE__']))]))
    return out, ids
def live_text(r, ls):
    """render the lines; skipped text is chosen with the same reading of the sections as the specification's"""
    st, o = [], []
    for l in ls:
        k = l['k']; live = not st or st[-1][0]
        o.append(render(r, l, not live))
        if k == 'if': st.append([live and l['c'] == 't', not live or l['c'] == 't', live])
        elif k in ('else', 'elif') and st:
            f = st[-1]; t = k == 'else' or l['c'] == 't'
            f[0] = f[2] and not f[1] and t; f[1] = f[1] or f[0]
        elif k == 'endif' and st: st.pop()
    return o
def dirjob(a):
    tool, src, text_, ids = a
    open(src, 'w', newline='').write(text_)
    out = src[:-1] + 'wasm'
    rc, so, se = tool.link([src], out)
    r = dict(rc=rc, msg=(so + se).decode(errors='replace')[-300:], out=[], acc=rc == 0, bad='')
    if rc == 0:
        x = host.run(open(out, 'rb').read(), host.Host(log_io=False), 50_000_000); os.unlink(out)
        if x.status not in ('exit', 'return') or x.code: r['bad'] = 'program failed: %s %s %s' % (x.status, x.code, x.msg[-100:])
        r['out'] = [[int(v) for v in q.split()] for q in x.out.decode().splitlines()]
    elif rc < 0 or rc >= 64: r['bad'] = 'compiler ended with %d' % rc
    elif not r['msg'].strip(): r['bad'] = 'rejected without a diagnostic'
    elif os.path.exists(out): r['bad'] = 'rejected module leaves an output file'
    return r
def directives(c, n, part='directives'):
    d = build.scratch('wvm01-'); r = c.rng; jobs, items = [], []; tool = c.tool()
    for i in range(n):
        ls, ids = lines(r, r.choice([3, 6, 10, 16, 24])); eol = '\r\n' if r.random() < .15 else '\n'
        o = live_text(r, ls)
        head = ['#include <stdio.h>']
        main = ['int main(void) {'] + ['  printf("%d %%d\\n", u%d());' % (k, k) for k in ids] + ['  return 0;', '}']
        x = r.random()
        # main comes last, so an open section would swallow or keep it; sometimes it comes in a section of its own
        body = head + o + (main if x < .9 else ['#if 1'] + main + ['#else', 'garbage (', '#endif'])
        jobs.append((tool, os.path.join(d, 'd%d.c' % i), eol.join(body) + (eol if r.random() < .8 else ''), ids))
        items.append(dict(ls=[{k: v for k, v in l.items() if k != 'g'} for l in ls], ids=ids))
    res = lang.pmap(dirjob, jobs)
    data, keep = [], []
    for k, (j, it, x) in enumerate(zip(jobs, items, res)):
        if x['bad']: c.violation('%s:%d:%s' % (part, k, x['bad'][:40]), x['bad'] + ': ' + x['msg'].strip()[-200:], dict(source=j[2], msg=x['msg'])); continue
        data.append(dict(id=k, lines=it['ls'], acc=x['acc'], out=x['out']))
    t = c.tlc('DirectivesTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=dict(items=data)))
    free = 0
    for p in t.prints:
        k = p['id']; x = res[k]
        if p['j'] == 'open': free += 1; continue
        what = {'accepted': 'invalid module accepted', 'rejected': 'valid module rejected: ' + x['msg'].strip()[-200:], 'value': 'expected %s observed %s' % (p['exp'], x['out'])}[p['j']]
        c.violation('%s:%d:%s' % (part, k, p['j']), what, dict(source=jobs[k][2], msg=x['msg']))
    acc = sum(1 for x in res if x['acc'])
    c.part(part, modules=len(jobs), accepted=acc, open=free, judged=len(data) - free)
    return len(data) - free

def run(c):
    t = c.tlc('DirectivesMC', 'CONSTANTS N = %d\nCs = {"t", "f"}\nINIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n' % c.n(6, 7))
    c.part('directive machine', states=t.distinct, invariant='takes effect iff the first true branch of every section around')
    n = directives(c, c.n(500, 6000))
    units = [Unit(c.rng, 4).unit() for _ in range(c.n(40, 700))]
    units += consts(c, c.n(6, 60))
    for i, u in enumerate(units): u.name = 'u%d' % i
    done, skip = lang.validate(c, units, 'macros', spec='MacroRun')
    c.part('macro programs', units=len(units), runs=done, undefined=skip)
    c.traces += n + done

if __name__ == '__main__': check.main('M01', run)
