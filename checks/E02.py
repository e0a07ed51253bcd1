"""E02: constant expressions have the value of the expression in every context."""
import os
from wv import check, cgen as g, lang, build, host, tlc
TECHNIQUE = 'TLA+ semantics of literal spellings and constant expressions (Literals, ConstExpr over CLang/IntSem); TLC validates what compiled programs report for generated constants in every context (enumerator, initialiser, bound, case label, static_assert, body)'
NOTE = 'Integer constants; generated expressions up to depth 4 plus an operator x type x boundary grid. Undefined constants excluded.'
SUF = dict(int=[''], uint=['u', 'U'], long=['l', 'L'], ulong=['ul', 'UL', 'lu', 'LU', 'uL', 'Lu'], llong=['ll', 'LL'],
           ullong=['ull', 'ULL', 'llu', 'LLU', 'uLL', 'LLu'])
def num(text, q='int', v=None): return dict(k='num', s=list(text.encode() if isinstance(text, str) else text), q=q, _c=cnum(text, q), _v=v)
def cnum(text, q):
    b = text.encode() if isinstance(text, str) else bytes(text)
    s = b.decode('utf-8')
    return s if q == 'int' else ("'%s'" if q == 'chr' else "L'%s'") % s
def spell(rng, v, t):
    f = rng.randrange(5)
    s = '%d' % v if f < 2 else ('0x%x' if rng.random() < .5 else '0X%X') % v if f < 4 else '0%o' % v
    if f == 2 and rng.random() < .2: s = s[:2] + '00' + s[2:]
    return num(s + rng.choice(SUF[t]), 'int', v)
def cx(e):
    k = e['k']
    if k == 'num': return e['_c']
    if k == 'enumc': return e['n']
    if k == 'un': return '(%s%s)' % (e['op'], cx(e['a']))
    if k == 'bin': return '(%s %s %s)' % (cx(e['l']), e['op'], cx(e['r']))
    if k == 'land': return '(%s && %s)' % (cx(e['l']), cx(e['r']))
    if k == 'lor': return '(%s || %s)' % (cx(e['l']), cx(e['r']))
    if k == 'cond': return '(%s ? %s : %s)' % (cx(e['c']), cx(e['a']), cx(e['b']))
    if k == 'cast': return '((%s)%s)' % (g.ctype(e['t']), cx(e['a']))
    if k == 'sizeof': return '((int)sizeof(%s))' % g.ctype(e['t'])
    if k == 'alignof': return '((int)alignof(%s))' % g.ctype(e['t'])
    if k == 'offsetof': return '((int)offsetof(%s, %s))' % (g.ctype(e['t']), e['f'])
    raise ValueError(k)
CHARS = ['a', 'Z', '0', ' ', '"', '\\n', '\\t', '\\0', '\\\\', "\\'", '\\"', '\\?', '\\a', '\\b', '\\f', '\\r', '\\v', '\\7', '\\12', '\\101',
         '\\177', '\\200', '\\377', '\\x0', '\\x41', '\\x7f', '\\x80', '\\xFF', '\\xa', '\\x007f', '~', '/', '*', '\\u0041']
WCHARS = ['a', '\\n', '\\x80', '\\377', '\\u00e9', '\\u20AC', '\u00e9', '\u20ac', '\U0001f600', '\\0', "\\'", '"']
TAGS = {'S1': [('c', ['char']), ('l', ['llong']), ('s', g.arr(['short'], 3))], 'S2': [('a', ['short']), ('p', g.ptr(['int'])), ('c', ['char'])],
        'U1': [('d', ['double']), ('c', g.arr(['char'], 11))]}
SZ = [['char'], ['bool'], ['ushort'], ['int'], ['long'], ['llong'], ['float'], ['double'], g.ptr(['char']), g.arr(['short'], 7), g.st('S1'), g.st('S2'),
      g.un('U1'), g.arr(g.st('S1'), 3), g.arr(g.arr(['int'], 2), 5)]
class Gen:
    """random constant integer expressions with their value and type according to the generator (used only to avoid undefined ones)"""
    def __init__(self, rng, enums=None): self.rng = rng; self.enums = enums or {}
    def leaf(self):
        r = self.rng; x = r.random()
        if x < .62:
            t = r.choice(['int'] * 3 + ['uint', 'llong', 'ullong'])
            v = abs(g.rval(r, t)); hi = g.BOUND[t][-1]; v = min(v, hi)
            return spell(r, v, t), v, t
        if x < .68:        # L suffixes only under a cast (their own type is a recorded finding)
            t = r.choice(['long', 'ulong']); v = min(abs(g.rval(r, t)), g.BOUND[t][-1])
            return g.cast([t], spell(r, v, t)), v, t
        if x < .78:
            s = r.choice(CHARS); return num(s, 'chr'), None, 'int'
        if x < .80:
            s = r.choice(WCHARS); return g.cast(['long'], num(s, 'wchr')), None, 'long'
        if x < .90 and self.enums:
            n = r.choice(list(self.enums)); return dict(k='enumc', n=n), self.enums[n], 'int'
        if x < .95: t = r.choice(SZ); return g.sizeof(t), None, 'int'
        if x < .98: t = r.choice(SZ); return g.alignof(t), None, 'int'
        return g.offsetof(g.st('S1'), r.choice('cls')), None, 'int'
    def gen(self, d):
        """(tree, value or None when not tracked, type)"""
        r = self.rng
        if d <= 0 or r.random() < .1: return self.leaf()
        x = r.random()
        if x < .22:
            op = r.choice(['-', '~', '!', '+', '-']); a, v, t = self.gen(d - 1)
            z = 'int' if op == '!' else g.promote(t)
            w = None if v is None else {'-': lambda: g.wrap(-v, z), '~': lambda: g.wrap(~v, z), '!': lambda: int(not v), '+': lambda: g.wrap(v, z)}[op]()
            return g.una(op, a), w, z
        if x < .38:
            t = r.choice(g.INTS); a, v, _ = self.gen(d - 1); return g.cast([t], a), None if v is None else g.wrap(v, t), t
        if x < .72:
            op = r.choice(g.ARITH + g.CMP); l, vl, tl = self.gen(d - 1); q, vq, tq = self.gen(d - 1)
            if op in ('<<', '>>'):
                n = r.choice([0, 1, 7, 8, 15, 16, 31, 30, 33, 63]) % (8 * g.W[g.promote(tl)]); z = r.choice(['int', 'uint', 'llong'])
                return g.bin_(op, l, spell(r, n, z)), None, g.promote(tl)
            if op in ('/', '%'):
                n = r.choice([1, 2, 3, 7, 10, 255, 1000, 65537]); tq = r.choice(['int', 'uint', 'llong', 'ullong']); q = spell(r, n, tq)
                if r.random() < .4 and tq in g.SG: q = g.una('-', q) if n > 1 else q
            return g.bin_(op, l, q), None, 'int' if op in g.CMP else g.common(tl, tq)
        if x < .86:
            f = r.choice([g.land, g.lor]); l, _, _ = self.gen(d - 1); q, _, _ = self.gen(d - 1); return f(l, q), None, 'int'
        c, _, _ = self.gen(d - 1); a, _, ta = self.gen(d - 1); b, _, tb = self.gen(d - 1)
        return g.cond(c, a, b), None, g.common(ta, tb)
class Unit:
    """enumerators, cases that report at run time; or a single acceptance case"""
    def __init__(self, enums, cases): self.enums = enums; self.cases = cases
    def source(self):
        o = [g.PRELUDE, 'struct S1 { char c; long long l; short s[3]; };\nstruct S2 { short a; int *p; char c; };\nunion U1 { double d; char c[11]; };\n']
        if self.enums:
            o.append('enum en_ { %s };\n' % ', '.join(e['n'] + (' = ' + cx(e['e']) if e['has'] else '') for e in self.enums))
        m = []
        for k, c in enumerate(self.cases):
            if c['k'] == 'init':
                n = len(c['es'])
                if c['_form'] == 'local':
                    m.append('  { %s = { %s }; d_((void*)&v%d, (int)sizeof(v%d)); }\n' % (g.decl(g.arr(c['t'], n), 'v%d' % k), ', '.join(map(cx, c['es'])), k, k))
                else:
                    kw = 'static ' if c['_form'] == 'static' else 'const '
                    o.append('%s%s = { %s };\n' % (kw, g.decl(g.arr(c['t'], n), 'v%d' % k), ', '.join(map(cx, c['es']))))
                    m.append('  d_((void*)&v%d, (int)sizeof(v%d));\n' % (k, k))
            elif c['k'] == 'array':
                if c['_form'] == 'static': o.append('static %s;\n' % g.decl(c['t'], 'v%d[%s]' % (k, cx(c['e'])))); m.append('  E_((int)sizeof(v%d));\n' % k)
                elif c['_form'] == 'member': o.append('struct M%d { %s; };\n' % (k, g.decl(c['t'], 'm[%s]' % cx(c['e'])))); m.append('  E_((int)sizeof(struct M%d));\n' % k)
                else: m.append('  { %s; E_((int)sizeof(v%d)); }\n' % (g.decl(c['t'], 'v%d[%s]' % (k, cx(c['e']))), k))
            elif c['k'] == 'switch':
                o.append('static int s%d(int x) { switch (x) { %s default: return 0; } return 99; }\n' % (k, ' '.join('case %s: return %d;' % (cx(e), j + 1) for j, e in enumerate(c['ls']))))
                m.append('  E_(s%d(%s));\n' % (k, g.litc(c['_x'], 'int')))
            elif c['k'] == 'body': m.append('  E_(%s);\n' % cx(c['e']))
            elif c['k'] == 'assert': (o if c['_form'] == 'top' else m).append('static_assert(%s%s);\n' % (cx(c['e']), c.get('_msg', '')))
            elif c['k'] == 'bound': (o.append('static char v%d[%s];\n' % (k, cx(c['e']))) if c['_form'] == 'top' else m.append('{ char v%d[%s]; v%d[0] = (char)1; E_((int)v%d[0]); }\n' % (k, cx(c['e']), k, k)))
            elif c['k'] == 'lit': m.append('  E_(%s);\n' % cx(c['e']))
            if c['k'] in ('init', 'array', 'switch', 'body'): m.append('  ev_(255, 0ULL);\n')
        # one function per batch of cases keeps functions small
        fs, b = [], []
        for s in m:
            b.append(s)
            if len(b) >= 120 and s.startswith('  ev_'): fs.append(b); b = []
        fs.append(b)
        o += ['static void b%d_(void) {\n%s}\n' % (i, ''.join(x)) for i, x in enumerate(fs)]
        o.append('int main(void) { %s fl_(); return 0; }\n' % ' '.join('b%d_();' % i for i in range(len(fs))))
        return ''.join(o)
RUN = ('init', 'array', 'switch', 'body')
def job(a):
    tool, u, d, name = a
    src = os.path.join(d, name + '.c'); out = os.path.join(d, name + '.wasm')
    open(src, 'w').write(u.source())
    rc, so, se = tool.link([src], out)
    msg = (so + se).decode(errors='replace')[-400:]
    if not any(c['k'] in RUN for c in u.cases):
        return dict(acc=rc == 0, rc=rc, msg=msg)
    if rc: return dict(fail=msg, rc=rc)
    wasm = open(out, 'rb').read(); os.unlink(out)
    res = host.run(wasm, host.Host(log_io=False), 100_000_000)
    runs, rest = lang.split(res.out)
    if res.status not in ('exit', 'return') or res.code: return dict(fail='%s %s' % (res.status, res.msg[-300:]), rc=0)
    return dict(runs=runs)
def judge(c, units, part):
    d = build.scratch('wve02-')
    res = lang.pmap(job, [(c.tool(), u, d, 'u%05d' % k) for k, u in enumerate(units)])
    items, idx = [], []
    for k, (u, r) in enumerate(zip(units, res)):
        if 'fail' in r:
            c.violation('%s:compile' % part, 'valid constants not compiled or run: %s' % r['fail'].strip()[:300], dict(source=u.source(), **r)); continue
        if 'acc' in r:
            if r['rc'] not in (0, 1): c.violation('%s:crash' % part, 'compiler ended with status %d: %s' % (r['rc'], r['msg'].strip()[:200]), dict(source=u.source(), **r)); continue
            obs = [[[-3]] if r['acc'] else [[-2]]]
        else:
            obs = r['runs']
            if len(obs) != len(u.cases): c.violation('%s:runs' % part, 'program stopped early', dict(source=u.source())); continue
        cs = [dict(g.clean(x), obs=o) for x, o in zip(u.cases, obs)]
        prog = g.program({}, TAGS); prog = dict(prog, enums=g.clean(u.enums))
        items.append(dict(P=g.clean(prog), cases=cs)); idx.append((u, k))
    if not items: return
    t = c.tlc('ConstExpr', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=items), heap='12g', timeout=800)
    skip = 0
    for p in t.prints:
        u, k = idx[p['i'] - 1]
        if 'skip' in p: skip += 1; continue
        x = u.cases[p['reject'] - 1]
        text = cx(x['e']) if 'e' in x else ', '.join(map(cx, x.get('es', x.get('ls', [])))) if x['k'] != 'enums' else ', '.join(e['n'] + (' = ' + cx(e['e']) if e['has'] else '') for e in u.enums)
        c.violation('%s:%s' % (part, x['k']), '%s context, constant %s: expected %s observed %s' % (x['k'], text[:300], p['exp'], p['obs']),
                    dict(source=u.source(), case=g.clean(x), expected=p['exp'], observed=p['obs']))
    n = sum(len(x['cases']) for x in items)
    if t.distinct != n + len(items): raise tlc.ModelError('TLC processed %d of %d cases' % (t.distinct - len(items), n))
    c.traces += n - skip
    c.part(part, units=len(units), cases=n, undefined_skipped=skip, tlc_s=round(t.wall, 1))
def init(rng, es, t, form=None): return dict(k='init', es=es, t=t, _form=form or rng.choice(['static', 'static', 'const', 'local']))
def contexts(c, rng, e, v, ty, enums):
    """the contexts an expression can be placed in without breaking a constraint"""
    out = [dict(k='body', e=e)]
    t = rng.choice(g.INTS)
    out.append(init(rng, [g.cast([t], e)], [t]))
    out.append(init(rng, [e], [ty]) if ty != 'enum' else out[0])
    s = rng.choice([1, 2, 3])
    a = g.bin_('+', g.bin_('&', e, spell(rng, rng.choice([0, 3, 63, 255]), 'int')), spell(rng, s, 'int'))
    out.append(dict(k='array', e=a, t=[rng.choice(['char', 'short', 'int', 'llong'])], _form=rng.choice(['static', 'member', 'local'])))
    x = rng.choice([0, 1, 2, 5, 7, -1, 127, 128])
    m = spell(rng, 127, 'int')
    # labels separated by construction: (e & 127), +128, +256
    b = g.bin_('&', e, m); ls = [b, g.bin_('|', b, spell(rng, 128, 'int')), g.bin_('-', b, spell(rng, 1000, 'int'))]
    rng.shuffle(ls)
    if v is not None and rng.random() < .8: x = rng.choice([v & 127, (v & 127) | 128, (v & 127) - 1000])
    out.append(dict(k='switch', ls=ls, x=g.tobytes(x, 'int'), _x=x))
    return out
def build_units(c, n, per, depth):
    rng = c.rng; units = []
    for _ in range(n):
        enums, vals = [], {}
        for j in range(rng.randint(3, 8)):
            name = 'k%d_' % j; prev = vals.get('k%d_' % (j - 1), -1) if j else -1
            if rng.random() < .6 and not (prev is not None and prev == 2**31 - 1) and prev is not None:
                if rng.random() < .5: enums.append(dict(n=name, has=False, e=0)); vals[name] = prev + 1; continue
            e, v, t = Gen(rng, {k: x for k, x in vals.items()}).gen(rng.randint(0, 2))
            # keep within int: mask into 31 bits, or negate
            e = g.cast(['int'], g.bin_('&', e, spell(rng, rng.choice([255, 65535, 0x3fffffff]), 'int')))
            if rng.random() < .3: e = g.una('-', e)
            enums.append(dict(n=name, has=True, e=e)); vals[name] = None
        cases = []
        while len(cases) < per:
            e, v, t = Gen(rng, vals).gen(rng.randint(1, depth))
            cases += contexts(c, rng, e, v, t, vals)
        units.append(Unit(enums, cases + [dict(k='body', e=dict(k='enumc', n=x['n'])) for x in enums]))
    return units
def grid(c, k):
    """operators x literal types x boundary values, in body and initialiser"""
    rng = c.rng; units = []; cases = []
    LT = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'char', 'short', 'uchar', 'ushort', 'bool']
    def operand(t, v):
        u = t if t in ('int', 'uint', 'llong', 'ullong') else {'long': 'int', 'ulong': 'uint'}.get(t, 'int')
        if v >= 0: e = spell(rng, v, u)
        elif v == -(1 << (8 * g.W[u] - 1)): e = g.bin_('-', g.una('-', spell(rng, -v - 1, u)), spell(rng, 1, u))
        else: e = g.una('-', spell(rng, -v, u))
        return e if t == u else g.cast([t], e)
    def put(e, t):
        cases.append(dict(k='body', e=e))
        if t and rng.random() < .5: cases.append(init(rng, [e], [t]))
        if len(cases) >= 400: units.append(Unit([], cases[:])); cases.clear()
    from checks.E01 import pairs
    for op in g.ARITH + g.CMP + ['&&', '||']:
        for t1 in LT:
            for t2 in LT:
                for a, b in pairs(op, t1, t2, rng, k):
                    l, r = operand(t1, a), operand(t2, b)
                    e = g.land(l, r) if op == '&&' else g.lor(l, r) if op == '||' else g.bin_(op, l, r)
                    t = 'int' if op in g.CMP + ['&&', '||'] else g.promote(t1) if op in ('<<', '>>') else g.common(t1, t2)
                    put(e, t)
    for t1 in LT:
        for v in g.BOUND[t1]:
            for op in '-~!+': put(g.una(op, operand(t1, v)), 'int' if op == '!' else g.promote(t1))
            for t2 in g.INTS: put(g.cast([t2], operand(t1, v)), t2)
            z = rng.choice(LT); put(g.cond(operand(t1, v), spell(rng, 5, 'int'), operand(z, 1)), g.common('int', z))
    # operands that are not evaluated may be undefined
    for _ in range(40 * k):
        e, v, t = Gen(rng).gen(2); x, _, tx = Gen(rng).gen(1); z = spell(rng, 0, rng.choice(['int', 'uint', 'llong', 'ullong']))
        bad = rng.choice([g.bin_('/', x, z), g.bin_('%', x, z), g.bin_('/', x, g.bin_('-', z, z)), g.una('!', g.bin_('/', x, z))])
        put(rng.choice([lambda: g.cond(spell(rng, rng.choice([1, 2, 2**32]), 'llong'), e, bad), lambda: g.cond(z, bad, e), lambda: g.land(z, bad),
                        lambda: g.lor(spell(rng, 3, 'int'), bad), lambda: g.bin_('+', g.land(z, bad), e), lambda: g.cond(g.land(z, bad), bad, e)])(), None)
    if cases: units.append(Unit([], cases))
    return units
def literals(c, n):
    rng = c.rng; units = []; cases = []
    for s in CHARS + ['\\x%02x' % i for i in range(256)] + ['\\%o' % i for i in range(256)]: cases.append(dict(k='body', e=num(s, 'chr')))
    for i in range(32, 127):
        if chr(i) not in "'\\": cases.append(dict(k='body', e=num(chr(i), 'chr')))
    for s in WCHARS + ['\\u%04x' % rng.randrange(0x80, 0xd800) for _ in range(20)] + [chr(rng.choice([rng.randrange(0xa0, 0xd800), rng.randrange(0xe000, 0xffff), rng.randrange(0x10000, 0x110000)])) for _ in range(40)]:
        cases.append(dict(k='body', e=g.cast(['ullong'], num(s, 'wchr'))))
    for t in SUF:
        for v in [x for x in g.BOUND[t] if x >= 0] + [rng.getrandbits(rng.randrange(1, 8 * g.W[t])) for _ in range(n)]:
            for suf in SUF[t]:
                for f in ('%d', '0x%x', '0X%X', '0%o'):
                    if rng.random() < .5: continue
                    e = num(f % v + suf, 'int')
                    cases.append(dict(k='body', e=g.cast(['llong'], e) if t in ('long', 'ulong') else e))
                    if t in ('long', 'ulong') or rng.random() < .3: cases.append(init(rng, [g.cast([t], e)], [t]))
    for i in range(0, len(cases), 400): units.append(Unit([], cases[i:i + 400]))
    return units
def accept(c, n):
    """single-construct units whose acceptance the specification decides"""
    rng = c.rng; units = []
    def one(case): units.append(Unit([], [case]))
    N = lambda v, t='int': spell(rng, v, t)
    H = [0, 1, 2, 255, 65536, 2**31 - 1]
    for v in H: one(dict(k='assert', e=N(v), _form=rng.choice(['top', 'in'])))
    for v in [0, 1, 2**31, 2**32, 2**32 + 1, 2**33, 2**63 - 1, 3 << 32]:
        for f in ('top', 'in'): one(dict(k='assert', e=N(v, 'llong'), _form=f, _msg=rng.choice(['', ', "m"'])))
    for v in [2**32, 2**63, 2**64 - 1, 0]: one(dict(k='assert', e=N(v, 'ullong'), _form='top'))
    for v in [-1, 0, 1, 2, 100, -2**31, -5]:
        for f in ('top', 'in'): one(dict(k='bound', e=g.una('-', N(-v)) if -2**31 < v < 0 else g.bin_('-', g.una('-', N(2**31 - 1)), N(1)) if v < 0 else N(v), _form=f))
    for v in [2**32, 2**32 + 1, 2**32 + 100, 2**33 + 7, 2**63 - 1, 5]:
        for f in ('top', 'in'): one(dict(k='bound', e=N(v, 'llong'), _form=f)); one(dict(k='bound', e=N(v, 'ullong'), _form=f))
    for _ in range(n):
        e, v, t = Gen(rng).gen(rng.randint(1, 4))
        k = rng.choice(['assert', 'assert', 'bound'])
        if k == 'bound': e = g.bin_('-', g.bin_('%', g.cast(['int'], e), N(20)), N(rng.randrange(8)))
        elif rng.random() < .5: e = g.una('!', e) if rng.random() < .5 else g.bin_(rng.choice(g.CMP), e, Gen(rng).gen(2)[0])
        one(dict(k=k, e=e, _form=rng.choice(['top', 'in'])))
    def enums(*l): units.append(Unit([dict(n='q%d_' % i, has=e is not None, e=e or 0) for i, e in enumerate(l)], [dict(k='enums')]))
    for v, t in [(2**31, 'uint'), (2**31 - 1, 'int'), (2**31 - 1, 'uint'), (2**31, 'llong'), (2**32, 'llong'), (2**32 - 1, 'uint'), (2**32 + 5, 'ullong'), (7, 'ullong'), (2**64 - 1, 'ullong')]:
        enums(N(v, t)); enums(None, N(v, t), N(1))
    enums(N(2**31 - 1), None); enums(N(2**31 - 2), None); enums(N(2**31 - 2), None, None); enums(g.una('-', N(1)), None)
    enums(g.una('-', N(2**31, 'llong'))); enums(g.una('-', N(2**31 + 1, 'llong')))
    for t in SUF:
        hi = g.BOUND[t][-1]
        for v in (hi, hi + 1, hi * 2 + 1, hi * 2 + 2, hi * 16, hi - 1):
            for f in ('%d', '0x%X', '0%o'): one(dict(k='lit', e=num(f % v + rng.choice(SUF[t]))))
    for s in ('18446744073709551616', '18446744073709551615ULL', '18446744073709551616ULL', '0x10000000000000000ULL', '99999999999999999999999LL', '0777777777777777777777LL', '01777777777777777777777ULL', '02000000000000000000000ULL'):
        one(dict(k='lit', e=num(s)))
    for s in ('\\400', '\\777', '\\377', '\\x100', '\\xff'): one(dict(k='lit', e=num(s, 'chr')))
    return units
def suffix(c):
    """the recorded deviation: type of L literals"""
    d = build.scratch(); src = os.path.join(d, 'a.c'); out = os.path.join(d, 'a.wasm')
    open(src, 'w').write(g.PRELUDE + 'int main(void) { E_(1L); E_(1UL); fl_(); return 0; }\n')
    rc, so, se = c.tool().link([src], out)
    if rc: c.violation('suffix(L):compile', 'L literals not compiled: %r' % (so + se), {}); return
    ev = [(k, int.from_bytes(b, 'little')) for k, b in g.events(host.run(open(out, 'rb').read()).out)]
    c.traces += 1
    if ev != [(3, 1), (4, 1)]:
        c.violation('suffix(L)' if ev == [(1, 1), (2, 1)] else 'suffix(L):other', 'the literals 1L and 1UL should have types long and unsigned long: %s' % ev, dict(events=ev))
def run(c):
    suffix(c)
    u = literals(c, c.n(6, 40)); judge(c, u, 'literals')
    judge(c, accept(c, c.n(250, 3000)), 'acceptance')
    judge(c, grid(c, c.n(4, 20)), 'grid')
    u = build_units(c, c.n(40, 400), 160, 4); judge(c, u, 'trees')
    c.sample(dict(enums=[e['n'] + (' = ' + cx(e['e']) if e['has'] else '') for e in u[0].enums], body=cx(u[0].cases[0]['e'])))
if __name__ == "__main__": check.main('E02', run)
