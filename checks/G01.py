"""G01: the texts the compiler accepts are those the grammar derives, and mean what their parse tree means."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from wv import cgen as g, lang, check, build, host, tlc
TECHNIQUE = 'TLA+ specification of lexer, grammar and tree semantics (Grammar.tla, Static.tla, CLang.tla); generated and mutated texts are compiled, TLC parses each text from its characters, derives whether it must be accepted and interprets its tree to validate the recorded run'
NOTE = 'Open questions of the dialect (the o sets of Grammar.tla) and runs that depend on unspecified order, indeterminate values or addresses are not judged.'
HEAD = g.PRELUDE
TAIL = '\nint main(void) { while (rd_(4)) { f((int)ib_[0], (unsigned)ib_[1], (long long)ib_[2], (int)ib_[3]); ev_(255, 0ULL); } fl_(); return 0; }\n'
W8 = ['llong', 'ullong']
def source(x): return HEAD + x + TAIL
# ---- a text is a list of tokens; spaces are chosen when it is printed ----------------------------
ID = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
PUN = ['->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '&=', '^=', '|=', '<<=', '>>=', '...', '//', '/*', '##']
def merges(a, b):
    if a[-1] in ID and b[0] in ID: return True
    if a[-1] in '0123456789.' and b[0] == '.' or a[-1] == '.' and b[0] in '0123456789': return True
    return any(p.startswith((a + b[0])[-len(p):]) and len((a + b[0])) <= len(p) and p[:len(a) + 1] == a + b[0] for p in PUN)
COMMENTS = ['/* c */', '/**/', '/* a*b /c */', '/***/', '// x\n', '/*\n*/', '//\n', '/* // */', '/* "q */', "// it's\n"]
def show(rng, toks, tight=.0, style=None):
    style = style or rng.choice(['plain', 'tight', 'wide', 'odd'])
    o = []
    for k, t in enumerate(toks):
        if k:
            a = toks[k - 1]; sep = ''
            if style == 'plain' or (style == 'odd' and rng.random() < .5): sep = '' if t in (';', ',', ')', ']', '(', '[') and a not in ('=', 'return') and a not in g_kw else ' '
            elif style == 'wide': sep = rng.choice([' ', '  ', '\n', '\t', ' ' + rng.choice(COMMENTS) + ' ' if rng.random() < .1 else ' '])
            elif style == 'odd': sep = rng.choice(['', ' ', rng.choice(COMMENTS), '\n\n'])
            if t == ':' and a[-1] in ID and style in ('wide', 'odd'): sep = ''
            if merges(a, t) and not sep and rng.random() >= tight: sep = ' ' if rng.random() < .9 else rng.choice(COMMENTS[:2])
            if a == '/' and sep.startswith('/'): sep = ' ' + sep
            o.append(sep)
        o.append(t)
    return ''.join(o) + '\n'
g_kw = {'return', 'if', 'while', 'for', 'switch', 'case', 'goto', 'do', 'else', 'int', 'unsigned', 'long', 'char', 'short', 'struct', 'union', 'enum', 'void', 'const', 'signed', 'typedef'}
BINOPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
BINW = [6, 6, 4, 1, 1, 3, 3, 4, 4, 4, 3, 3, 2, 2, 3, 2, 3, 3]
INTS = {'int': [['int'], ['signed'], ['signed', 'int'], ['int', 'signed']], 'uint': [['unsigned'], ['unsigned', 'int'], ['int', 'unsigned']], 'long': [['long'], ['long', 'int'], ['signed', 'long'], ['int', 'long'], ['long', 'signed', 'int']],
        'ulong': [['unsigned', 'long'], ['long', 'unsigned', 'int'], ['long', 'int', 'unsigned']], 'llong': [['long', 'long'], ['long', 'long', 'int'], ['long', 'signed', 'long'], ['long', 'int', 'long']],
        'ullong': [['unsigned', 'long', 'long'], ['long', 'unsigned', 'long'], ['long', 'long', 'int', 'unsigned']], 'char': [['char'], ['signed', 'char'], ['char', 'signed']], 'uchar': [['unsigned', 'char'], ['char', 'unsigned']],
        'short': [['short'], ['short', 'int'], ['signed', 'short'], ['int', 'short'], ['short', 'signed', 'int']], 'ushort': [['unsigned', 'short'], ['short', 'unsigned'], ['unsigned', 'short', 'int'], ['int', 'short', 'unsigned']]}
class Gen:
    def __init__(self, rng):
        self.rng = rng; self.n = 0; self.top = []; self.fn = []; self.vars = []; self.arrs = []; self.ptrs = []; self.aggs = []; self.enums = []; self.types = []; self.fps = []; self.others = []
    def name(self): self.n += 1; return self.rng.choice('xyzuvwkmnpq') + str(self.n)
    def spec(self, t):
        r = self.rng; o = list(r.choice(INTS[t]))
        if r.random() < .06: o.insert(r.randrange(len(o) + 1), r.choice(['const', 'volatile']))
        return o
    # -- expressions: flat sequences of operands and operators; the grammar decides what they mean
    def num(self):
        r = self.rng; v = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 63, 100, 127, 128, 255, 256, 1000])
        return [r.choice(['%d' % v, '%d' % v, '0x%x' % v, '0X%X' % v, '0%o' % v, '%du' % v, '%dU' % v, '%dLL' % v, '%dull' % v, "'%s'" % r.choice(['a', 'Z', '0', ' ', '\\n', '\\\\', "\\'", '"', '*', '/'])] if r.random() < .6 else ['%d' % v])]
    def small(self): return [str(self.rng.randrange(6))]
    def index(self, n):
        r = self.rng; y = r.random()
        if y < .4: return [str(r.randrange(n))]
        m = {4: 3, 3: 1, 2: 1, 5: 3}.get(n, 1)
        return r.choice([[r.choice(self.ints())] + r.choice([['+'] + self.small(), ['-'] + self.small(), ['>>', '1'], []]) + ['&', str(m)], ['('] + self.expr(1, typ='int') + [')', '&', str(m)]])
    def ints(self): return [v for v, t in self.vars if t in ('int', 'char', 'short', 'uchar', 'ushort')] or ['0']
    def lvalue(self):
        r = self.rng; y = r.random()
        if y < .6 or not (self.arrs or self.aggs): v, t = r.choice(self.vars); return [v], t
        if y < .8 and self.arrs: v, t, n = r.choice(self.arrs); return [v, '['] + self.index(n) + [']'], t
        if self.aggs:
            v, f, t = r.choice(self.aggs); return v + f, t
        v, t = r.choice(self.vars); return [v], t
    def primary(self, d):
        r = self.rng; y = r.random()
        if y < .36: return [r.choice(self.vars)[0]] if self.vars else ['1']
        if y < .56: return self.num()
        if y < .62 and self.enums: return [r.choice(self.enums)]
        if d <= 0: return [r.choice(self.vars)[0]] if self.vars else ['1']
        if y < .72: return ['('] + self.expr(d - 1) + [')']
        if y < .8: return self.lvalue()[0]
        if y < .85 and self.fn: return self.callf(d - 1)
        if y < .88: return ['sizeof', '('] + self.tname() + [')']
        if y < .90: return ['"', ] and ['"' + r.choice(['abc', 'xyz', 'a\\n', '\\\\q', 'p"'.replace('"', '\\"')]) + '"'] + (['"d"'] if r.random() < .3 else []) + ['['] + [str(r.randrange(3))] + [']']
        if y < .93 and self.vars: v, t = r.choice(self.vars); return ['(', v, r.choice(['=', '+=', '-=', '^=', '|=', '&=', '*='])] + self.conv(t, d - 1) + [')']
        if y < .96 and self.vars: return [r.choice(self.vars)[0], r.choice(['++', '--'])]
        return ['('] + self.expr(d - 1) + [','] + self.expr(d - 1) + [')']
    def tname(self):
        r = self.rng; y = r.random()
        if y < .7 or not self.types: return self.spec(r.choice(list(INTS))) + r.choice([[], [], [], ['*'], ['*', '*'], ['*', 'const', '*']])
        return [r.choice(self.types)] + r.choice([[], ['*'], ['[', '3', ']'], ['(', '*', ')', '[', '2', ']'], ['(', '*', ')', '(', 'int', ')'], ['*', '[', '2', ']']])
    def callf(self, d):
        f, ts = self.rng.choice(self.fn); o = []
        for t in ts: o += [','] + self.conv(t, d)
        return [f, '('] + o[1:] + [')'] if ts else [f, '(', ')']
    def unary(self, d):
        r = self.rng; y = r.random()
        if y < .7: return self.primary(d)
        if y < .9:
            op = r.choice(['-', '+', '~', '!', '-', '!'])
            return [op] + self.unary(d - 1 if r.random() < .5 else 0)
        if y < .93 and self.vars: return [r.choice(['++', '--']), r.choice(self.vars)[0]]
        t = r.choice(list(INTS)); return ['('] + self.spec(t) + [')'] + self.unary(d - 1)
    def flat(self, d):
        r = self.rng; n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]) if d > 0 else r.choice([1, 1, 2]); o = self.unary(d)
        for _ in range(n - 1):
            op = r.choices(BINOPS, BINW)[0]
            o += [op] + (self.small() if op in ('<<', '>>') and r.random() < .6 else r.choice([['3'], ['7'], ['(', '1', '|'] + self.unary(0) + [')']]) if op in '/%' and r.random() < .85 else self.unary(d - 1))
        return o
    def expr(self, d, typ=None):
        r = self.rng
        if typ: return ['('] + self.spec(typ) + [')', '('] + self.expr(d) + [')']
        o = self.flat(d)
        if r.random() < .1: o += ['?'] + (self.flat(d - 1) if r.random() < .8 else self.expr(d - 1)) + [':'] + self.expr(d - 1)
        return o
    def conv(self, t, d):
        r = self.rng
        if r.random() < .06: return self.expr(d)
        if t == 'int' and r.random() < .4: return self.flat_int(d)
        return ['('] + self.spec(t) + [')'] + (['('] + self.expr(d) + [')'] if r.random() < .8 else self.unary(d))
    def flat_int(self, d):
        r = self.rng; o = [r.choice(self.ints())]
        for _ in range(r.randrange(4)):
            op = r.choices(BINOPS, BINW)[0]; o += [op] + (self.small() if op in ('<<', '>>', '/', '%') else [r.choice(self.ints())])
        return [str(r.randrange(1, 5)) if (x == '0' and o[k - 1] in '/%') else x for k, x in enumerate(o)]
    # -- statements
    def stmt(self, d, loop, sw=False):
        r = self.rng; y = r.random()
        if d <= 0 or y < .42:
            z = r.random()
            if z < .35: return ['E_', '('] + self.expr(2) + [')', ';']
            if z < .62:
                l, t = self.lvalue(); op = r.choice(['=', '=', '=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '%=', '/='])
                return l + [op] + (self.small() if op in ('<<=', '>>=') else ['3'] if op in ('%=', '/=') and r.random() < .8 else self.conv(t, 2)) + [';']
            if z < .68:
                (l, t), (m, u) = self.lvalue(), self.lvalue()
                return l + ['='] + m + ['='] + self.conv(u, 1) + [';']
            if z < .76: l, _ = self.lvalue(); return (l + [r.choice(['++', '--'])] if r.random() < .5 else [r.choice(['++', '--'])] + l) + [';']
            if z < .82 and self.fn: return self.callf(1) + [';']
            if z < .88 and self.others: return list(r.choice(self.others)) + [';']
            if z < .92 and loop: return [r.choice(['break', 'continue']), ';']
            if z < .94: return [';']
            if z < .96: return ['return', ';'] if not self.infun else [';']
            return self.expr(2) + [','] + self.expr(1) + [';']
        if y < .62:
            o = ['if', '('] + self.expr(1) + [')'] + self.sub(d - 1, loop)
            k = 0
            while r.random() < .45 and k < 3: o += ['else'] + (['if', '('] + self.expr(1) + [')'] if r.random() < .5 else []) + self.sub(d - 1, loop); k += 1
            return o
        if y < .68:
            v = r.choice(self.ints())
            return [v, '=', str(r.randrange(1, 4)), ';', 'while', '('] + r.choice([[v, '--', '>', '0'], [v, '--'], ['--', v, '>=', '0'], ['(', v, '-=', '1', ')', '>', '0']]) + [')'] + self.sub(d - 1, False)
        if y < .72:
            v = r.choice(self.ints())
            return ['do'] + self.sub(d - 1, False) + ['while', '(', v, '++', '<', str(r.randrange(4)), ')', ';']
        if y < .84:
            v = self.name(); k = str(r.randrange(1, 5))
            h = r.choice([['int', v, '=', '0', ';', v, '<', k, ';', v, '++'], ['int', v, '=', k, ';', v, ';', '--', v], ['int', v, '=', '0', ',', v + 'a', '=', '3', ';', v, '<', v + 'a', ';', v, '++', ',', v + 'a', '--'],
                          ['int', v, '=', '0', ';', v, '<', k, '&&', r.choice(self.ints()), '!=', '7', ';', '++', v]])
            return ['for', '('] + h + [')'] + self.sub(d - 1, True)
        if y < .92: return self.switch(d - 1, loop)
        return self.block(d - 1, loop)
    def sub(self, d, loop):
        if self.rng.random() < .5: return self.block(d, loop)
        s = self.stmt(d, loop)
        return s if ';' not in s[:-1] or s[0] in ('if', 'for', 'switch', 'do', '{', 'while') else ['{'] + s + ['}']
    def switch(self, d, loop):
        r = self.rng; o = ['switch', '('] + r.choice([[r.choice(self.ints())] + ['&', '3'], self.flat_int(1), [r.choice(self.ints())]]) + [')', '{']
        ks = r.sample(range(-2, 6), r.randint(1, 4)); dpos = r.randrange(len(ks) + 2)
        for j, k in enumerate(ks):
            if j == dpos: o += ['default', ':'] + (self.stmt(d, False) if r.random() < .7 else [])
            o += ['case'] + ([str(k)] if k >= 0 else ['-', str(-k)]) + [':']
            if k < 0: o[-3:-1] = [str(-k + 10)]
            for _ in range(r.choice([0, 1, 1, 2])): o += self.stmt(d, False)
            if r.random() < .6: o += ['break', ';']
        if dpos == len(ks): o += ['default', ':'] + self.stmt(d, False)
        return o + ['}']
    def decl(self):
        r = self.rng; t = r.choice(list(INTS)); o = self.spec(t) if r.random() > .12 or not self.types else None
        if o is None: o = [self.types[0]]; t = 'int'
        if r.random() < .05: o = [r.choice(['auto', 'register'])] + o
        new = []
        for k in range(r.choice([1, 1, 2, 3])):
            v = self.name() if r.random() < .85 or not self.vars else None
            if v is None:
                v = r.choice(self.vars)[0]
                if v in self.here: v = self.name()
            o += ([','] if k else []) + (['(', v, ')'] if r.random() < .07 else [v]) + ['='] + self.conv(t, 1)
            self.here.add(v); self.vars = [(a, b) for a, b in self.vars if a != v] + [(v, t)]
        return o + [';']
    def block(self, d, loop):
        r = self.rng; sv = list(self.vars); sh = getattr(self, 'here', set()); self.here = set()
        o = ['{']
        for _ in range(r.choice([0, 1, 2, 2, 3])): o += self.decl() if r.random() < .25 else self.stmt(d, loop)
        self.vars = sv; self.here = sh
        return o + ['}']
    # -- declarations
    def prog(self):
        r = self.rng; o = []; self.infun = True
        if r.random() < .35:
            es = []; 
            for k in range(r.randint(1, 4)): n = self.name().upper(); self.enums.append(n); es += ([','] if k else []) + [n] + (['=', str(r.randrange(9))] if r.random() < .5 else [])
            o += ['enum'] + ([self.name()] if r.random() < .5 else []) + ['{'] + es + ([','] if r.random() < .2 else []) + ['}', ';']
        if r.random() < .35: t = self.name().upper() + 'T'; o += ['typedef'] + self.spec('int') + [t, ';']; self.types.append(t)
        if r.random() < .45:
            s = self.name(); kw = r.choice(['struct', 'struct', 'union']); fs = []; v = self.name(); o += [kw, s, '{']
            for _ in range(r.randint(1, 4)):
                t = r.choice(list(INTS)); f = self.name(); z = r.random(); o += self.spec(t)
                if z < .6: o += [f, ';']; fs.append(([f], t))
                elif z < .8: o += [f, '[', '2', ']', ';']; fs.append(([f, '[', str(r.randrange(2)), ']'], t))
                else: h = self.name(); o += [f, ',', h, ';']; fs += [([f], t), ([h], t)]
            if r.random() < .4: o += [kw, s, '*', 'nx', ';']
            o += ['}']
            pv = self.name()
            if r.random() < .5: o += [v, ',', '*', pv, ';']
            else: o += [';', kw, s, v, ';', kw, s, '*', pv, ';']
            for f, t in fs:
                self.aggs.append(([v, '.'], f, t))
                if r.random() < .5: self.aggs.append((['(', '&', v, ')', '->'], f, t))
            self.others += [[pv, '=', '&', v], [pv, '=', '(', kw, s, '*', ')', '&', v]]
            if r.random() < .3 and kw == 'struct': self.aggs.append((['(', '*', '&', v, ')', '.'],) + fs[0])
        for _ in range(r.randint(0, 3)):
            t = r.choice(list(INTS)); v = self.name(); z = r.random()
            if z < .3: o += self.spec(t) + [v, '=', r.choice(['3', '7', '1', '12'])] + [';']; self.vars.append((v, t))
            elif z < .55: n = r.randint(2, 4); o += self.spec(t) + [v, '[', r.choice([str(n), '0x%x' % n]), ']', ';']; self.arrs.append((v, t, n)) if n != 3 else self.arrs.append((v, t, 2))
            elif z < .75:
                w = self.name(); q = self.name(); o += self.spec(t) + [v, ',', w, '[', '4', ']', ',', '*', q, ';']; self.vars.append((v, t)); self.arrs.append((w, t, 4))
                self.others += [[q, '=', '&', w, '[', '1', ']'], ['(', q, '=', '&', w, '[', '2', ']', ',', 'E_', '(', '*', q, ')', ')'], ['(', q, '=', '&', w, '[', '0', ']', ',', 'E_', '(', '*', q, '++', ')', ',', 'E_', '(', '*', '--', q, '+', '1', ')', ')'],
                                [q, '=', '&', w, '[', '1', ']', ',', '(', '*', q, ')', '++', ',', 'E_', '(', q, '[', '-', '1', ']', ')'], ['*', '&', w, '[', '2', ']', '=', '3'], ['E_', '(', '&', w, '[', '3', ']', '-', '&', w, '[', '1', ']', ')'],
                                ['E_', '(', 'sizeof', '(', w, ')', ')'], ['E_', '(', '(', 'int', ')', 'sizeof', '(', '*', q, ')', ')']]
            else:
                w = self.name(); o += self.spec(t) + ['(', '*', v, ')', '[', '2', ']', ',', w, '[', '3', ']', '[', '2', ']', ';']
                self.others += [[v, '=', '&', w, '[', '1', ']', ',', '(', '*', v, ')', '[', '1', ']', '=', '5', ',', 'E_', '(', w, '[', '1', ']', '[', '1', ']', ')'], ['E_', '(', 'sizeof', '(', '*', v, ')', ')'], ['E_', '(', 'sizeof', '(', w, '[', '0', ']', ')', ')'],
                                [v, '=', '&', w, '[', '0', ']', ',', v, '++', ',', 'E_', '(', '(', '*', v, ')', '[', '0', ']', '==', w, '[', '1', ']', '[', '0', ']', ')']]
                self.aggs.append(([w, '['], [str(r.randrange(3)), ']', '[', str(r.randrange(2)), ']'], t))
        for _ in range(r.choice([0, 1, 1, 2])):
            sv = list(self.vars); n = self.name(); rt = r.choice(['int', 'int', 'uint', 'llong', 'char']); ps = [(self.name(), r.choice(list(INTS))) for _ in range(r.randrange(3))]
            pl = []
            for k, (a, t) in enumerate(ps): pl += ([','] if k else []) + self.spec(t) + [a]
            ho, ha, hr, he = self.others, self.aggs, self.arrs, self.fn; self.others = []
            if r.random() < .6: self.vars = []; self.arrs = []; self.aggs = []
            self.vars = self.vars + ps; self.here = {a for a, _ in ps}
            if not self.vars: self.vars = sv or []
            if not self.vars: v = self.name(); o += ['int', v, ';']; self.vars = [(v, 'int')]; sv.append((v, 'int'))
            b = []
            if r.random() < .5: b += self.decl()
            if r.random() < .4: b += self.stmt(1, False)
            head = self.spec(rt) + [n, '('] + (pl or r.choice([['void'], []])) + [')']
            if r.random() < .25: o += head + [';']
            o += head + ['{'] + b + ['return'] + self.conv(rt, 2) + [';', '}']
            self.vars = sv; self.others, self.aggs, self.arrs = ho, ha, hr; self.fn = he + [(n, [t for _, t in ps])]
            if rt == 'int' and len(ps) == 1 and ps[0][1] == 'int' and r.random() < .8:
                fp = self.name(); o += ['int', '(', '*', fp, ')', '(', 'int', ')', ';']; self.others += [[fp, '=', '&', n, ',', 'E_', '(', '(', '*', fp, ')', '(', '4', ')', ')'], ['(', '*', '&', n, ')', '(', '2', ')']]
        self.infun = False
        self.vars += [('a', 'int'), ('b', 'uint'), ('c', 'llong'), ('d', 'int')]; self.here = {'a', 'b', 'c', 'd'}
        o += ['void', 'f', '(', 'int', 'a', ',', 'unsigned', 'b', ',', 'long', 'long', 'c', ',', 'int', 'd', ')', '{']
        if r.random() < .12:
            l = self.name().upper(); o += ['{', 'E_', '(', 'a', ')', ';', 'if', '(', '--', 'a', '>', '0', ')', 'goto', l, ';', 'E_', '(', 'd', ')', ';', l + ':', '}'] if r.random() < .5 else ['{', l + ':', 'E_', '(', 'd', ')', ';', 'if', '(', '(', 'd', '&=', '3', ')', '-', '--', '>', '0', ')', 'goto', l, ';', '}'] if r.random() < .2 else ['{', l + ':', 'd', '&=', '3', ';', 'if', '(', 'd', '--', '>', '0', ')', 'goto', l, ';', '}']
        for _ in range(r.randint(1, 4)): o += self.decl() if r.random() < .3 else self.stmt(2, False)
        for v, _ in r.sample(self.vars, min(2, len(self.vars))): o += ['E_', '(', v, ')', ';']
        return o + ['}']
VOCAB = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '?', ':', ',', ';', '(', ')', '[', ']', '{', '}', '=', '+=', '<<=', '++', '--', '~', '!', '.', '->', '...',
         'if', 'else', 'while', 'do', 'for', 'switch', 'case', 'default', 'break', 'continue', 'return', 'goto', 'int', 'unsigned', 'long', 'char', 'short', 'signed', 'void', 'struct', 'union', 'enum', 'const', 'static', 'typedef', 'sizeof', 'register', 'extern', 'volatile', 'auto',
         'a', 'b', 'c', 'd', '1', '0', '2', '0x', '09', '1u', "'a'", '"s"', 'E_', 'zz', '#', '@', '$', '`', '\\', "'", '"', '/*', '*/', '//', '1e', '0b1', '12ab', '.5', '1..2']
def mutate(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if not t: t = ['a']
        k = rng.randrange(len(t)); y = rng.random()
        if y < .25: del t[k]
        elif y < .4: t.insert(k, t[k])
        elif y < .5 and k: t[k - 1], t[k] = t[k], t[k - 1]
        elif y < .65: t[k] = rng.choice(VOCAB)
        elif y < .8: t.insert(k, rng.choice(VOCAB))
        elif y < .9: t[k] = rng.choice(t)
        else: j = rng.randrange(len(t)); t[k:k] = t[j:j + rng.randint(1, 3)]
    return t
def mutchar(rng, x):
    k = rng.randrange(len(x)); y = rng.random()
    if y < .45: return x[:k] + x[k + 1:]
    if y < .8: return x[:k] + rng.choice('+-*/%<>=&|^!~?:;,.()[]{}"\'\\#0123456789xuLEeab \n') + x[k:]
    return x[:k] + rng.choice('+-*/<>=&|;,.(){}[]"\'019xb ') + x[k + 1:]
ARGS = [[0, 0, 0, 0], [1, 2, 3, 4], [-1, 0xffffffff, -1, 5], [7, 3, 1 << 33, -2], [100, 200, -300, 2], [0x7fffffff, 1, 1 << 62, -0x80000000]]
def argv(rng):
    z = list(rng.choice(ARGS))
    for k in range(4):
        if rng.random() < .4: z[k] = rng.choice([0, 1, 2, 3, 5, 9, -1, -7, 12, 31, 64, 255])
    return z
def b(v, n): return [(v >> (8 * j)) & 255 for j in range(n)]
def vec(z): return [b(z[0], 4), b(z[1], 4), b(z[2], 8), b(z[3], 4)]
def stdin(z): return b''.join((v & ((1 << 64) - 1)).to_bytes(8, 'little') for v in z)
def job(a):
    tool, src, d, name, runs = a
    f = os.path.join(d, name + '.c'); out = os.path.join(d, name + '.wasm')
    open(f, 'w').write(src); rc, so, se = tool.link([f], out)
    r = dict(rc=rc, msg=(so + se).decode(errors='replace'), out=os.path.exists(out), runs=[])
    if r['out']:
        wasm = open(out, 'rb').read(); os.unlink(out)
        if rc == 0:
            for z in runs:
                res = host.run(wasm, host.Host(stdin=stdin(z), log_io=False), 20_000_000)
                if res.status == 'invalid': r['invalid'] = res.msg[-300:]; break
                done, cur = lang.split(res.out)
                r['runs'].append(dict(args=vec(z), ev=(done[0] if done else cur)[:400], trap=not (done and res.status in ('exit', 'return') and res.code == 0)))
    os.unlink(f)
    return r
INTINT = re.compile(r'\bint\s+((?:(?:unsigned|signed|long|short|const|volatile)\s+)*)int\b')
def judge(c, texts, part, nruns=2):
    again = []
    d = build.scratch('wvg01-'); texts = list(dict.fromkeys(texts)); rng = c.rng
    jobs = [(c.tool(), source(x), d, 'p%05d' % k, [argv(rng) for _ in range(nruns)]) for k, x in enumerate(texts)]
    res = lang.pmap(job, jobs)
    for k, r in enumerate(res):
        det = dict(text=texts[k], status=r['rc'], message=r['msg'][-600:])
        if not 0 <= r['rc'] < 64: c.violation('%s:crash' % part, 'compiler ended abnormally with status %d: %s' % (r['rc'], r['msg'].strip()[-200:]), det)
        elif r['rc'] == 0 and not r['out']: c.violation('%s:nofile' % part, 'accepted but no output file', det)
        elif r['rc'] == 0 and 'invalid' in r: c.violation('%s:module' % part, 'accepted text gives an invalid module: %s' % r['invalid'], det)
        elif r['rc'] and r['out']: c.violation('%s:file' % part, 'rejected but an output file was written', det)
        elif r['rc'] and not r['msg'].strip(): c.violation('%s:silent' % part, 'rejected without a diagnostic', det)
    items = [dict(x=list(x), acc=r['rc'] == 0, runs=r['runs']) for x, r in zip(texts, res)]
    try: t = c.tlc('GrammarTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=dict(items=items)), heap='12g', timeout=800)
    except tlc.ModelError as e:
        m = re.search(r'/\\ i = (\d+)', str(e))
        raise tlc.ModelError('%s\ntext: %s' % (str(e)[:1500], texts[int(m.group(1)) - 1] if m else '?'))
    if t.distinct != 2 * len(items): raise tlc.ModelError('TLC judged %d of %d texts' % (t.distinct - len(items), len(items)))
    n = dict(open=0, rejected=0, norun=0, ran=0, skipped=0); why = {}; opens = {}
    for p in t.prints:
        k = p['i'] - 1; r = res[k]
        if 'open' in p:
            n['open'] += 1
            for x in p['open']: opens[x] = opens.get(x, 0) + 1
        elif 'rej' in p:
            n['rejected'] += 1
            for x in p['rej']: why[x] = why.get(x, 0) + 1
        elif 'norun' in p:
            n['norun'] += 1
            for x in p['norun']: opens['run: ' + x] = opens.get('run: ' + x, 0) + 1
        elif 'ran' in p: n['ran'] += p['ran']; n['skipped'] += p['of'] - p['ran']
        elif 'want' in p and p['want'] == 'reject' and INTINT.search(texts[k]):
            c.violation('int-int', 'the specifier int is accepted twice', dict(text=texts[k])); again.append(INTINT.sub(lambda m: m.group(1) + 'int', texts[k]))
        elif 'want' in p:
            c.violation('%s:%s' % (part, p['want']), '%s expected (%s), compiler %s: %s' % (p['want'], ', '.join(p.get('bad', [])) or 'well formed', 'accepts' if r['rc'] == 0 else 'rejects', r['msg'].strip()[-160:].replace('\n', ' ')), dict(text=texts[k], message=r['msg'][-400:]))
        else: c.violation('%s:run' % part, 'run %d differs at event %d: expected %s, recorded %s' % (p['run'], p['at'], p['exp'], p['obs']), dict(text=texts[k], args=jobs[k][4][p['run'] - 1]))
    c.traces += len(items)
    c.part(part, texts=len(items), open_question=n['open'], ill_formed=n['rejected'], not_run=n['norun'], runs_checked=n['ran'], runs_undefined=n['skipped'], rules=dict(sorted(why.items(), key=lambda z: -z[1])[:25]), open=dict(sorted(opens.items(), key=lambda z: -z[1])[:25]), tlc_s=round(t.wall, 1))
    if again: judge(c, again, part + '-once', nruns)
from wv.g01_texts import handmade
F = 'void f(int a, unsigned b, long long c, int d)'
def soup(rng):
    """short random token sequences in the three places the grammar begins: expression, statement, declaration"""
    ex = ['a', 'b', '1', '(', ')', '+', '-', '*', '&', '?', ':', ',', '=', '==', '++', '!', '[', ']', 'w', '.', 'x', '->', 'p', 'sizeof', 'int', "'c'", '"s"', '&&', '<<', '<', '+=']
    st = ex + [';', ';', '{', '}', 'if', 'else', 'while', 'do', 'for', 'return', 'break', 'case', 'int', 'E_', 'switch', 'default', 'goto', 'L', ':']
    de = ['int', 'char', 'long', 'unsigned', 'const', '*', '*', '(', ')', '[', ']', '2', 'x', 'y', 'z', ',', ';', '=', '1', 'struct', 's', '{', '}', 'void', 'enum', 'typedef', 'static', '...', 'short', 'int', 'signed']
    pre = ['int', 'w', '[', '3', ']', ';', 'struct', 's', '{', 'int', 'x', ';', '}', ';', 'struct', 's', '*', 'p', ';']
    y = rng.random()
    if y < .35: return pre + F0 + ['{', 'E_', '('] + [rng.choice(ex) for _ in range(rng.randint(1, 6))] + [')', ';', '}']
    if y < .65: return pre + F0 + ['{'] + [rng.choice(st) for _ in range(rng.randint(1, 6))] + rng.choice([[';'], []]) + ['E_', '(', 'a', ')', ';', '}']
    if y < .9: return [rng.choice(de) for _ in range(rng.randint(1, 6))] + [';'] + F0 + ['{', 'E_', '(', 'a', ')', ';', '}']
    return F0 + ['{', 'int', 'x', '=', '1', ';'] + [rng.choice(de) for _ in range(rng.randint(1, 5))] + [';', 'E_', '(', 'x', ')', ';', '}']
F0 = ['void', 'f', '(', 'int', 'a', ',', 'unsigned', 'b', ',', 'long', 'long', 'c', ',', 'int', 'd', ')']
PIECES = ['a', '0', '7', '8', 'f', 'n', "'", '?', '/*', '//', '%', '\\"', '\\\\', "\\'", '\\?', '\\n', '\\0', '\\1', '\\12', '\\101', '\\60', '\\x4', '\\x41', '\\a', '\\f', '\\377', '\\xff']
def quoted(rng, n):
    """string and character literals: all pairs of pieces, and longer random ones"""
    ok = [(a, b) for a in PIECES for b in PIECES]
    lits = ['"%s%s"' % p for p in ok] + ['"%s"' % a for a in PIECES] + ['""']
    for _ in range(n): lits.append(' '.join('"%s"' % ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 5))) for _ in range(rng.choice([1, 1, 1, 2, 3]))))
    hexy = [l for l in lits if '\\x' in l]; rest = [l for l in lits if '\\x' not in l]
    # the elements certainly there: escapes longer than written consume what follows
    full = lambda l, n=None: ' '.join('E_(%s[%d]);' % (l, k) for k in range(n if n else 1 + len(re.findall(r'\\[0-7]{1,3}|\\.|[^\\"]', re.sub('" *"', '', l)))) if k < 6) + ' E_(*%s);' % l
    o = ['%s { %s }\n' % (F, full(l, 2 if l != '"\\x4"' else 1)) for l in hexy] + ['%s { %s }\n' % (F, ' '.join(full(l) for l in rest[k:k + 12])) for k in range(0, len(rest), 12)]
    for a in PIECES + ['"', '', '\\', '\\8', '\\9', '\\x', '\\xg', '\\z', '\\ ', '\n']:
        for t in ["E_('%s');", "E_('%s' + 1);", 'E_("%s"[0]);', 'E_("a%s");', "E_('%s);", 'E_("%s);', 'E_(%s");']: o.append('%s { %s }\n' % (F, t.replace('%s', a)))
    return o
def run(c):
    rng = c.rng
    judge(c, handmade(F), 'rules', 3)
    judge(c, quoted(rng, c.n(200, 3000)), 'quoted', 1)
    toks = [Gen(rng).prog() for _ in range(c.n(700, 5000))]
    for j in range(0, len(toks), 5000): judge(c, [show(rng, t) for t in toks[j:j + 5000]], 'programs' if j == 0 else 'programs%d' % j, 3)
    mt = [show(rng, mutate(rng, rng.choice(toks)), .5) for _ in range(c.n(700, 6000))] + [mutchar(rng, show(rng, rng.choice(toks))) for _ in range(c.n(400, 4000))]
    for j in range(0, len(mt), 5000): judge(c, mt[j:j + 5000], 'mutations' if j == 0 else 'mutations%d' % j, 1)
    sp = [show(rng, soup(rng), .3) for _ in range(c.n(1500, 15000))]
    for j in range(0, len(sp), 5000): judge(c, sp[j:j + 5000], 'sequences' if j == 0 else 'sequences%d' % j, 1)
if __name__ == '__main__': check.main('G01', run)
