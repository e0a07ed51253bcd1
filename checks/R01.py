"""R01: ill-formed programs are diagnosed and produce no executable; well-formed ones are accepted."""
import os, copy
from wv import check, cgen as g, lang, build, tlc
TECHNIQUE = 'TLA+ static semantics of the dialect (Static: scopes, types, conversions, statement rules); generated programs, valid and with one rule broken, compiled; TLC decides each verdict'
NOTE = 'One-file programs; questions the documentation leaves open (marked free in the specification) only have to end in acceptance with a valid module or a diagnostic. Syntax errors: see G01.'
INT = ['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
def fn(r, *ps, va=False): return ['fn', r, list(ps), va]
I, V, D, F, C = ['int'], ['void'], ['double'], ['float'], ['char']
# ---- text -------------------------------------------------------------------------------
def decl(t, n):
    k = t[0]
    if k == 'ptr': return decl(t[1], '*' + n)
    if k == 'arr': return decl(t[1], '%s[%d]' % ('(%s)' % n if n.startswith('*') else n, t[2]))
    if k == 'fn': return decl(t[1], '%s(%s)' % ('(%s)' % n if n.startswith('*') else n, ', '.join([decl(x, '') for x in t[2]] + (['...'] if t[3] else [])) or 'void'))
    b = {'st': 'struct ', 'un': 'union ', 'en': 'enum ', 'name': ''}[k] + t[1] if k in ('st', 'un', 'en', 'name') else g.CN[k]
    return ('%s %s' % (b, n)).rstrip()
def ty(t): return decl(t, '')
def cx(e):
    k = e['k']
    if k == 'lit':
        if e['t'][0] == 'double': return '1.5'
        if e['t'][0] == 'float': return '2.5f'
        return g.litc(e['v'], e['t'][0])
    if k == 'str': return '"text"'
    if k == 'var': return e['n']
    if k == 'callp': return '(*%s)(%s)' % (cx(e['a']), ', '.join(map(cx, e['args'])))
    if k == 'sizeof': return '((int)sizeof(%s))' % ty(e['t'])
    if k == 'offsetof': return '((int)offsetof(%s, %s))' % (ty(e['t']), e['f'])
    if k == 'cast': return '((%s)%s)' % (ty(e['t']), cx(e['a']))
    if k == 'idx': return '%s[%s]' % (cx(e['a']), cx(e['i']))
    if k == 'deref': return '(*%s)' % cx(e['a'])
    if k == 'mem': return '%s.%s' % (cx(e['a']), e['f'])
    if k == 'arrow': return '%s->%s' % (cx(e['a']), e['f'])
    if k == 'addr': return '(&%s)' % cx(e['a'])
    if k == 'un': return '(%s%s)' % (e['op'], cx(e['a']))
    if k == 'bin': return '(%s %s %s)' % (cx(e['l']), e['op'], cx(e['r']))
    if k in ('land', 'lor'): return '(%s %s %s)' % (cx(e['l']), '&&' if k == 'land' else '||', cx(e['r']))
    if k == 'cond': return '(%s ? %s : %s)' % (cx(e['c']), cx(e['a']), cx(e['b']))
    if k == 'comma': return '(%s, %s)' % (cx(e['l']), cx(e['r']))
    if k == 'asn': return '(%s %s %s)' % (cx(e['l']), e['op'] if e['op'] == '=' else e['op'] + '=', cx(e['r']))
    if k == 'inc': return '(%s%s)' % (cx(e['a']), e['op'] * 2) if e['post'] else '(%s%s)' % (e['op'] * 2, cx(e['a']))
    if k == 'call': return '%s(%s)' % (e['f'], ', '.join(map(cx, e['args'])))
    raise ValueError(k)
def cs(s, ind='  '):
    k = s['k']; n = ind + '  '
    if k == 'expr':
        x = cx(s['e']); return ind + (x[1:-1] if s['e']['k'] in ('asn', 'inc') else x) + ';\n'
    if k == 'empty': return ind + ';\n'
    if k == 'block': return ind + '{\n' + ''.join(cs(x, n) for x in s['b']) + ind + '}\n'
    if k == 'if': return ind + 'if (%s)\n' % cx(s['c']) + cs(s['a'], n) + (ind + 'else\n' + cs(s['b'], n) if s['b']['k'] != 'empty' else '')
    if k == 'while': return ind + 'while (%s)\n' % cx(s['c']) + cs(s['b'], n)
    if k == 'do': return ind + 'do\n' + cs(s['b'], n) + ind + 'while (%s);\n' % cx(s['c'])
    if k == 'for':
        i = ''.join(cs(x, '') for x in s['init']).strip() or ';'
        return ind + 'for (%s %s; %s)\n' % (i, cx(s['c']) if s['c']['k'] != 'none' else '', cs(s['step'], '').strip().rstrip(';')) + cs(s['b'], n)
    if k == 'switch': return ind + 'switch (%s) {\n' % cx(s['e']) + ''.join(cs(x, n) for x in s['b']) + ind + '}\n'
    if k == 'case': return ind + 'case %s:\n' % cx(s['e'])
    if k in ('default',): return ind + 'default:\n'
    if k in ('break', 'continue'): return ind + k + ';\n'
    if k == 'return': return ind + ('return %s;\n' % cx(s['e']) if s['val'] else 'return;\n')
    if k == 'goto': return ind + 'goto %s;\n' % s['n']
    if k == 'label': return ind[2:] + s['n'] + ':\n'
    if k == 'decl': return ind + decl(s['t'], s['n']) + (' = ' + cx(s['e']) if s['init'] else '') + ';\n'
    raise ValueError(k)
def top(d):
    k = d['k']
    if k == 'tag': return '%s %s {\n%s};\n' % ('struct' if d['kw'] == 'st' else 'union', d['n'], ''.join('  %s;\n' % decl(f['t'], f['n']) for f in d['fs']))
    if k == 'enum': return 'enum %s { %s };\n' % (d['n'], ', '.join(e['n'] + (' = ' + cx(e['e']) if e['has'] else '') for e in d['es']))
    if k == 'typedef': return 'typedef %s;\n' % decl(d['t'], d['n'])
    if k == 'glob': return 'static %s%s;\n' % (decl(d['t'], d['n']), ' = ' + cx(d['e']) if d['init'] else '')
    if k == 'assert': return 'static_assert(%s, "claim");\n' % cx(d['e'])
    sig = ('' if d['n'] == 'main' else 'static ') + decl(d['ret'], '%s(%s)' % (d['n'], ', '.join([decl(p['t'], p['n']) for p in d['ps']] + (['...'] if d['va'] else [])) or 'void'))
    return sig + (';\n' if k == 'proto' else ' {\n' + ''.join(map(cs, d['body'])) + '}\n')
HEAD = '#include <stdbool.h>\n#include <stddef.h>\n'
def text(p): return HEAD + ''.join(map(top, p))
# ---- constructors -----------------------------------------------------------------------
def lit(v, t='int'): return dict(k='lit', t=[t], v=v)
def var(n): return dict(k='var', n=n)
def xs(e): return dict(k='expr', e=e)
def asn(l, r, op='='): return dict(k='asn', op=op, l=l, r=r)
def un(op, a): return dict(k='un', op=op, a=a)
def bi(op, l, r): return dict(k='bin', op=op, l=l, r=r)
def cast(t, a): return dict(k='cast', t=t, a=a)
def call(f, *a): return dict(k='call', f=f, args=list(a))
def callp(p, *a): return dict(k='callp', a=p, args=list(a))
def ret(e=None): return dict(k='return', val=e is not None, e=e or lit(0))
def vd(n, t, e=None): return dict(k='decl', n=n, t=t, init=e is not None, e=e or lit(0))
def block(*b): return dict(k='block', b=list(b))
def if_(c, a, b=dict(k='empty')): return dict(k='if', c=c, a=a, b=b)
def while_(c, b): return dict(k='while', c=c, b=b)
def do_(b, c): return dict(k='do', b=b, c=c)
def for_(i, c, s, b): return dict(k='for', init=i, c=c, step=s, b=b)
def switch(e, *b): return dict(k='switch', e=e, b=list(b))
def case(e): return dict(k='case', e=e if isinstance(e, dict) else lit(e))
DEF, BRK, CONT, EMPTY = dict(k='default'), dict(k='break'), dict(k='continue'), dict(k='empty')
def label(n): return dict(k='label', n=n)
def goto(n): return dict(k='goto', n=n)
def func(n, r, ps, *body, va=False): return dict(k='func', n=n, ret=r, ps=[dict(n=x, t=t) for x, t in ps], va=va, body=list(body))
def proto(n, r, ps, va=False): return dict(k='proto', n=n, ret=r, ps=[dict(n=x, t=t) for x, t in ps], va=va, body=[])
def tag(kw, n, *fs): return dict(k='tag', kw=kw, n=n, fs=[dict(n=x, t=t) for x, t in fs])
def enum(n, *es): return dict(k='enum', n=n, es=[dict(n=x, has=e is not None, e=e or lit(0)) for x, e in es])
def glob(n, t, e=None): return dict(k='glob', n=n, t=t, init=e is not None, e=e or lit(0))
def assert_(e): return dict(k='assert', e=e)
MAIN = func('main', I, [], ret(lit(0)))
P = g.ptr
S, U, EN = ['st', 'S'], ['un', 'U'], ['en', 'E']
BASE = [tag('st', 'T', ('p', P(I)), ('q', ['llong'])), enum('E', ('ea', None), ('eb', lit(5)), ('ec', None)),
        tag('st', 'S', ('a', I), ('c', C), ('t', ['st', 'T']), ('m', g.arr(I, 3)), ('n', P(S)), ('d', D), ('h', P(fn(I, I)))),
        tag('un', 'U', ('i', I), ('f', F), ('b', g.arr(['uchar'], 8))), dict(k='typedef', n='num', t=['uint']), dict(k='typedef', n='ref', t=P(S)),
        glob('gi', I, lit(3)), glob('gl', ['llong']), glob('ga', g.arr(['short'], 4)), glob('gs', S), glob('gp', P(C), dict(k='str')),
        func('fi', I, [('x', I)], ret(bi('+', var('x'), lit(1)))), func('fv', V, [('x', P(V)), ('y', ['llong'])]), func('fs', S, [('x', P(S))], vd("r", S), ret(var("r"))),
        func('fd', D, [('x', D), ('y', F)], ret(var('x'))), func('fz', V, []), func('fva', I, [('n', I)], ret(var('n')), va=True),
        func('fp', P(C), [('x', P(C)), ('n', ['uint'])], ret(bi('+', var('x'), var('n')))), func('fc', C, [('x', C)], ret(var('x')))]
# ---- the grid: every construct x every operand type ------------------------------------------
TYPES = [[x] for x in INT] + [F, D, P(C), P(['uchar']), P(I), P(V), P(P(C)), P(P(V)), P(fn(I, I)), P(fn(V)), P(S), P(['st', 'Opaque']), S, U, ['st', 'T'], g.arr(I, 3), g.arr(C, 4), EN, ['name', 'num'], ['name', 'ref']]
def one(*body, ps=(), r=V): return BASE + [func('t', r, list(ps), *body), MAIN]
def obj(t, n):
    return ([], [(n, t)]) if t[0] not in ('st', 'un', 'arr') else ([vd(n, t)], [])
def grid(rng, frac):
    out = []
    def two(mk, ts=TYPES, us=TYPES):
        for t in ts:
            for u in us:
                if rng.random() > frac: continue
                a, p = obj(t, 'x'); b, q = obj(u, 'y')
                out.append(one(*a, *b, *mk(t, u), ps=p + q))
    def uno(mk, ts=TYPES):
        for t in ts:
            a, p = obj(t, 'x'); out.append(one(*a, *mk(t), ps=p))
    x, y = var('x'), var('y')
    two(lambda t, u: [xs(asn(x, y))])
    two(lambda t, u: [block(vd('z', t, y))])
    for op in ['+', '-', '*', '%', '&', '<<']: two(lambda t, u: [xs(cast(V, bi(op, x, y)))])
    for op in ['==', '<']: two(lambda t, u: [xs(cast(V, bi(op, x, y)))])
    for op in ['+', '-', '/', '|', '>>']: two(lambda t, u: [xs(asn(x, y, op))])
    two(lambda t, u: [xs(cast(V, dict(k='idx', a=x, i=y)))])
    two(lambda t, u: [xs(cast(V, dict(k='cond', c=var('gi'), a=x, b=y)))])
    two(lambda t, u: [xs(cast(V, cast(t, y)))])
    two(lambda t, u: [xs(cast(V, dict(k='land', l=x, r=y)))])
    for t in TYPES:
        for u in TYPES:
            if rng.random() > frac: continue
            b, q = obj(u, 'y')
            if t[0] not in ('arr',): out.append(BASE + [func('t', t, q, *b, ret(y)), MAIN])
            if t[0] not in ('st', 'un', 'arr'): out.append(BASE + [func('w', V, [('x', t)]), func('t', V, q, *b, xs(call('w', y))), MAIN])
            if t[0] not in ('st', 'un', 'arr'): out.append(BASE + [func('t', V, q + [('h', P(fn(V, t)))], *b, xs(callp(var('h'), y))), MAIN])
            if t[0] not in ('st', 'un', 'arr'): out.append(BASE + [tag('st', 'K', ('x', t), ('c', C)), func('t', V, q + [('h', P(['st', 'K']))], *b, xs(asn(dict(k='arrow', a=var('h'), f='x'), y))), MAIN])
    for op in '-+~!': uno(lambda t: [xs(cast(V, un(op, x)))])
    for f in (lambda t: [xs(cast(V, dict(k='deref', a=x)))], lambda t: [xs(dict(k='inc', op='+', post=True, a=x))], lambda t: [xs(dict(k='inc', op='-', post=False, a=x))],
              lambda t: [xs(cast(V, dict(k='addr', a=x)))], lambda t: [xs(cast(V, dict(k='mem', a=x, f='a')))], lambda t: [xs(cast(V, dict(k='arrow', a=x, f='a')))],
              lambda t: [xs(cast(V, callp(x, lit(1))))], lambda t: [xs(call('x', lit(1)))], lambda t: [if_(x, EMPTY)], lambda t: [while_(x, EMPTY)], lambda t: [do_(EMPTY, x)],
              lambda t: [for_([], x, EMPTY, EMPTY)], lambda t: [switch(x, case(1), BRK)], lambda t: [xs(x)], lambda t: [ret(x)], lambda t: [xs(call('fva', lit(1), x))],
              lambda t: [xs(asn(x, call('fz')))], lambda t: [xs(asn(dict(k='addr', a=x), x))], lambda t: [xs(cast(V, dict(k='deref', a=dict(k='addr', a=x))))],
              lambda t: [xs(cast(V, dict(k='addr', a=dict(k='deref', a=x))))], lambda t: [xs(cast(V, dict(k='comma', l=x, r=lit(1))))], lambda t: [xs(asn(x, lit(0)))], lambda t: [xs(asn(x, lit(7, 'uint')))],
              lambda t: [xs(asn(x, lit(1, 'double')))], lambda t: [xs(asn(x, dict(k='str')))], lambda t: [xs(asn(x, dict(k='addr', a=var('fi'))))], lambda t: [xs(asn(x, var('fi')))],
              lambda t: [xs(cast(V, bi('+', call('fz'), x)))], lambda t: [xs(cast(V, dict(k='cond', c=x, a=lit(1), b=lit(2))))], lambda t: [vd('x', I)], lambda t: [block(vd('x', I))],
              lambda t: [xs(asn(cast(t, x), x))], lambda t: [xs(asn(un('-', x), x))], lambda t: [xs(asn(bi('+', x, x), x))], lambda t: [xs(asn(lit(3), x))], lambda t: [xs(asn(call('fi', lit(1)), x))],
              lambda t: [xs(dict(k='inc', op='+', post=False, a=dict(k='inc', op='+', post=True, a=x)))], lambda t: [xs(cast(V, dict(k='sizeof', t=t)))], lambda t: [xs(cast(V, dict(k='offsetof', t=t, f='a')))],
              lambda t: [xs(asn(dict(k='cond', c=var('gi'), a=x, b=x), x))], lambda t: [xs(asn(dict(k='comma', l=lit(1), r=x), x))]): uno(f)
    for t in TYPES + [V, fn(I, I), g.arr(V, 3), g.arr(I, 0), g.arr(I, -1), g.arr(['st', 'Opaque'], 2), ['st', 'Opaque'], ['un', 'S'], ['st', 'U'], ['st', 'E'], ['name', 'nil'], P(['name', 'nil']), ['name', 'gi'], g.arr(g.arr(I, 2), 2)]:
        out.append(one(vd('x', t))); out.append(BASE + [glob('x', t) if t[0] != 'fn' else proto('t', V, []), MAIN]); out.append(BASE + [tag('st', 'K', ('a', I), ('x', t)), MAIN]); out.append(BASE + [tag('un', 'K', ('x', t), ('a', I)), MAIN])
        if t[0] != 'name' or t[1] != 'gi': out.append(one(xs(cast(V, dict(k='sizeof', t=t)))))
        out.append(one(xs(cast(V, cast(P(t), var('gp'))))) if t[0] != 'fn' else one())
        if t[0] not in ('st', 'un', 'arr', 'fn'): out.append(BASE + [func('t', V, [('x', t)]), MAIN]); out.append(BASE + [proto('t', V, [('x', t)]), MAIN])
        if t[0] not in ('fn', 'arr'): out.append(BASE + [proto('t', t, []), MAIN])
        for e in (lit(0), lit(7), lit(1, 'double'), lit(9, 'llong'), dict(k='str'), dict(k='addr', a=var('gs')), dict(k='addr', a=var('ga')), dict(k='addr', a=var('fi')), var('gi'), call('fi', lit(1)), dict(k='sizeof', t=I), bi('+', var('gi'), lit(1)), var('ec'), cast(V, lit(0)), cast(P(V), lit(0)), var('nil')):
            if t[0] not in ('fn', 'arr', 'st', 'un'): out.append(BASE + [glob('x', t, e), MAIN])
    return out
def handmade():
    """statement and declaration rules, one program each"""
    o = []; A = o.append; L1 = xs(asn(var('gi'), lit(1)))
    for s in (BRK, CONT, case(1), DEF, goto('l1'), goto('nowhere')):
        for w in (lambda s: [s], lambda s: [block(s)], lambda s: [if_(var('gi'), s)], lambda s: [while_(var('gi'), block(s))], lambda s: [do_(block(s), var('gi'))],
                  lambda s: [for_([], lit(1), EMPTY, block(s))], lambda s: [for_([vd('i', I, lit(0))], bi('<', var('i'), lit(3)), xs(dict(k='inc', op='+', post=True, a=var('i'))), if_(var('gi'), s))],
                  lambda s: [switch(var('gi'), case(1), s)], lambda s: [switch(var('gi'), case(1), block(s), BRK, DEF, EMPTY)], lambda s: [while_(lit(1), switch(var('gi'), case(1), s, DEF, BRK))],
                  lambda s: [while_(var('gi'), EMPTY), s], lambda s: [switch(var('gi'), case(1), BRK), s], lambda s: [block(L1, s, L1, label('l1'))], lambda s: [block(label('l1'), L1, s)],
                  lambda s: [block(block(s), L1, label('l1'))], lambda s: [block(L1, label('l1')), s], lambda s: [s, block(L1, label('l1'))], lambda s: [block(L1, label('l1')), block(s)],
                  lambda s: [while_(var('gi'), block(label('l1'), if_(var('gi'), block(s)), L1))], lambda s: [block(label('l1'), L1), while_(var('gi'), block(s, label('l2')))],
                  lambda s: [block(label('l1'), L1, block(s, label('l1')))], lambda s: [block(label('l1'), L1), block(label('l1'), s)], lambda s: [block(label('l1'), s, label('l1'))]):
            A(one(*w(s)))
    for ls in ([1, 2], [1, 1], [1, 2, 1], [var('eb'), 5], [var('eb'), var('ec')], [var('ec'), bi('+', lit(5), lit(1))], [un('-', lit(1)), bi('-', lit(0), lit(1))], [var('gi')], [call('fi', lit(1))], [lit(1, 'double')],
               [bi('*', lit(3), lit(4)), 11, 12], [100, 2, 50, 3, 100], [var('nil')], [dict(k='str')], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 3], [0, un('!', lit(0)), un('!', lit(5))]):
        b = []
        for l in ls: b += [case(l), BRK]
        for d in range(3): A(one(switch(var('gi'), *b, *([DEF, BRK] * d)))); A(one(switch(var('gi'), *([DEF] * d), *b)))
        A(one(switch(var('gi'), case(1), switch(var('gi'), *b), BRK, case(3), BRK))); A(one(switch(lit(3), *b), switch(lit(4), *b)))
    for r, bodies in ((V, [[], [ret()], [ret(lit(1))], [ret(call('fz'))], [L1, ret(), L1], [if_(var('gi'), ret(lit(2)))]]),
                      (I, [[], [ret()], [ret(lit(1))], [ret(call('fz'))], [L1], [if_(var('gi'), ret(lit(1)))], [ret(lit(1)), L1], [if_(var('gi'), ret()), ret(lit(1))], [vd('x', I)], [while_(lit(1), ret()), ret(lit(1))], [block()], [ret(lit(1)), EMPTY]]),
                      (S, [[ret(var('gs'))], [ret(lit(1))], [ret()], [vd('k', ['st', 'T']), ret(var('k'))], []]), (P(C), [[ret(var('gp'))], [ret(lit(5))], [ret()], []])):
        for b in bodies: A(BASE + [func('t', r, [], *b), MAIN])
    D1 = [glob('dup', I), glob('dup', D), func('dup', I, [], ret(lit(1))), func('dup', V, []), func('dup', I, [('x', I)], ret(lit(1))), proto('dup', I, []), proto('dup', V, []), proto('dup', I, [('x', I)]), proto('dup', I, [('x', ['long'])]),
          proto('dup', I, [('x', I)], va=True), dict(k='typedef', n='dup', t=I), dict(k='typedef', n='dup', t=D), enum('En', ('dup', None)), tag('st', 'dup', ('a', I)), tag('un', 'dup', ('a', I)), glob('dup', I, lit(1))]
    for a in D1:
        for b in D1: A(BASE + [a, b, MAIN])
        A(BASE + [MAIN, a])
    for a in D1[2:9:2]: A(BASE + [a, proto('dup2', I, []), a, MAIN])
    for fs in ([('a', I), ('a', I)], [('a', I), ('b', C), ('a', D)], [('a', I), ('b', C)], [('a', ['st', 'K'])], [('a', P(['st', 'K']))], [('a', g.arr(['st', 'K'], 2))], [('a', V)], [('a', fn(I, I))], [('a', ['st', 'Later'])], [('a', P(['st', 'Later'])), ('b', P(['un', 'K']))],
               [('a', ['name', 'nil'])], [('a', g.arr(I, 0))], [('a', EN), ('b', ['name', 'num'])], []):
        for kw in ('st', 'un'): A(BASE + [tag(kw, 'K', *fs), MAIN]); A(BASE + [tag(kw, 'K', *fs), tag('st', 'Later', ('z', I)), func('t', V, [('x', P([kw, 'K']))]), MAIN])
    for ps in ([('a', I), ('a', I)], [('a', I), ('b', I), ('a', D)], [('a', V)], [('a', I), ('b', V)], [('fi', I)], [('S', I)], [('t', I)]):
        A(BASE + [func('t', V, ps), MAIN]); A(BASE + [func('t', V, ps, vd('a', I)), MAIN]); A(BASE + [func('t', V, ps, block(vd('a', I))), MAIN]); A(BASE + [proto('t', V, ps), MAIN] if len({x for x, _ in ps}) == len(ps) else [MAIN])
    for b in ([vd('x', I), vd('x', I)], [vd('x', I), block(vd('x', D))], [block(vd('x', I)), vd('x', I)], [vd('x', I), L1, vd('x', D)], [for_([vd('x', I, lit(0))], lit(0), EMPTY, block(vd('x', I)))], [vd('x', I), for_([vd('x', I, lit(0))], lit(0), EMPTY, EMPTY)],
              [block(vd('x', I)), xs(asn(var('x'), lit(1)))], [for_([vd('x', I, lit(0))], lit(0), EMPTY, EMPTY), xs(asn(var('x'), lit(1)))], [xs(asn(var('x'), lit(1))), vd('x', I)], [if_(lit(1), block(vd('x', I)), block(xs(asn(var('x'), lit(1)))))],
              [while_(lit(0), block(vd('x', I))), xs(var('x'))], [vd('x', I), vd('y', I, var('x'))], [vd('y', I, var('x')), vd('x', I)], [switch(lit(1), case(1), block(vd('x', I)), BRK, case(2), block(xs(asn(var('x'), lit(1)))), BRK)],
              [vd('fi', I), xs(call('fi', lit(1)))], [vd('fi', I), xs(asn(var('fi'), lit(1)))], [vd('S', I), vd('z', S)], [vd('num', I), xs(asn(var('num'), lit(1)))], [vd('ea', I), xs(asn(var('ea'), lit(1)))], [xs(asn(var('ea'), lit(1)))], [xs(asn(var('fi'), var('fi')))],
              [xs(asn(var('num'), lit(1)))], [xs(var('num'))], [do_(block(vd('x', I, lit(0))), var('x'))], [block(label('a'), vd('a', I), L1)], [block(vd('x', I), block(vd('x', D), vd('x', I)))]):
        A(one(*b)); A(one(block(*b))); A(one(while_(lit(1), block(*b))))
    for f, n in (('fi', 1), ('fv', 2), ('fd', 2), ('fz', 0), ('fp', 2), ('fva', 1)):
        for k in range(4):
            a = [lit(1) if f in ('fi', 'fva') else lit(1, 'float') if f == 'fd' else (var('gp') if i == 0 else lit(1)) for i in range(k)]
            A(one(xs(call(f, *a)))); A(BASE[:-8] + [func('t', V, [], xs(call(f, *a))), MAIN])
            sig = next(d for d in BASE if d.get('n') == f and d['k'] == 'func')
            A(one(vd('h', P(fn(sig['ret'], *[p['t'] for p in sig['ps']], va=sig['va'])), dict(k='addr', a=var(f))), xs(callp(var('h'), *a))))
            for f2 in ('fi', 'fz', 'fv'): A(one(vd('h', P(fn(sig['ret'], *[p['t'] for p in sig['ps']], va=sig['va'])), dict(k='addr', a=var(f2)))))
    # order of declarations
    late = func('late', I, [], ret(lit(1)))
    for ds in ([func('t', V, [], xs(call('late'))), late], [proto('late', I, []), func('t', V, [], xs(call('late'))), late], [late, func('t', V, [], xs(call('late')))], [proto('late', I, [('x', I)]), late],
               [func('t', V, [], xs(asn(var('gz'), lit(1)))), glob('gz', I)], [glob('gz', I), func('t', V, [], xs(asn(var('gz'), lit(1))))], [func('t', V, [('p', P(['st', 'Z']))], xs(asn(dict(k='arrow', a=var('p'), f='a'), lit(1)))), tag('st', 'Z', ('a', I))],
               [tag('st', 'Z', ('a', I)), func('t', V, [('p', P(['st', 'Z']))], xs(asn(dict(k='arrow', a=var('p'), f='a'), lit(1))))], [glob('z', ['st', 'Z']), tag('st', 'Z', ('a', I))], [func('t', V, [('p', P(['st', 'Z']))], xs(asn(var('p'), var('p')))), tag('st', 'Z', ('a', I))],
               [func('rec', I, [('n', I)], ret(call('rec', var('n'))))], [func('t', V, [], xs(asn(var('gi'), var('ez')))), enum('Z', ('ez', None))], [enum('Z', ('ez', None), ('ey', var('ez')), ('ex', bi('+', var('ey'), lit(2))))], [enum('Z', ('ez', var('ey')), ('ey', None))],
               [enum('Z', ('ez', None), ('ez', None))], [enum('Z', ('ez', var('gi')))], [enum('E', ('e9', None))], [tag('st', 'S', ('a', I))], [tag('un', 'S', ('a', I))], [dict(k='typedef', n='num', t=I)], [glob('num', I)], [glob('ea', I)], [func('gi', V, [])], [glob('fi', I)]):
        A(BASE + ds + [MAIN])
    for e in (lit(1), lit(0), var('ea'), var('eb'), bi('==', var('eb'), lit(5)), bi('<', var('ec'), lit(6)), var('gi'), bi('-', var('eb'), lit(5)), call('fi', lit(1)), var('nil'), un('!', lit(0)), un('!', lit(3)), bi('==', dict(k='sizeof', t=I), lit(4))):
        A(BASE + [assert_(e), MAIN])
    for m in ([], [func('main', V, [])], [func('main', I, [('a', I)], ret(lit(0)))], [func('main', I, [('a', I), ('b', P(P(C)))], ret(lit(0)))], [func('main', D, [], ret(lit(1, 'double')))], [MAIN, MAIN], [glob('main', I)], [func('main', I, [('a', I), ('b', P(C))], ret(lit(0)))],
              [func('main', I, [])], [func('main', I, [], ret())]):
        A(BASE + m)
    return o
# ---- random programs ----------------------------------------------------------------------
ARI = ['int', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'float', 'double']
POOL = [[t] for t in INT] + [F, D, P(C), P(I), P(['llong']), P(V), P(S), P(P(C)), P(fn(I, I)), P(['st', 'T']), I, I, C, P(I)]
FIELDS = {'S': [('a', I), ('c', C), ('t', ['st', 'T']), ('m', g.arr(I, 3)), ('n', P(S)), ('d', D), ('h', P(fn(I, I)))], 'T': [('p', P(I)), ('q', ['llong'])], 'U': [('i', I), ('f', F), ('b', g.arr(['uchar'], 8))]}
FUNS = {d['n']: d for d in BASE if d['k'] == 'func'}
def key(t): return repr(t)
class Gen:
    def __init__(self, rng): self.rng = rng; self.n = 0; self.sc = [[('gl', ['llong'], 1), ('ga', g.arr(['short'], 4), 1), ('gs', S, 1), ('gp', P(C), 1), ('gi', I, 1)]]
    def name(self): self.n += 1; return 'v%d' % self.n
    def vars(self): return [v for s in self.sc for v in s]
    def lvalue(self, t, d):
        """an lvalue of exactly type t, or None"""
        r = self.rng; c = [var(n) for n, u, _ in self.vars() if u == t]
        for n, u, _ in self.vars():
            if u[0] == 'arr' and u[1] == t: c.append(dict(k='idx', a=var(n), i=self.index(d - 1)))
            if u[0] == 'ptr' and u[1] == t and t[0] not in ('void', 'fn'):
                c.append(r.choice([dict(k='deref', a=var(n)), dict(k='idx', a=var(n), i=self.index(d - 1))]))
            if u[0] in ('st', 'un'): c += [dict(k='mem', a=var(n), f=f) for f, w in FIELDS[u[1]] if w == t]
            if u[0] == 'ptr' and u[1][0] in ('st', 'un'): c += [dict(k='arrow', a=var(n), f=f) for f, w in FIELDS[u[1][1]] if w == t]
            if u == S and t == I: c.append(dict(k='idx', a=dict(k='mem', a=var(n), f='m'), i=self.index(d - 1)))
            if u == P(S) and t == P(I): c.append(dict(k='mem', a=dict(k='arrow', a=var(n), f='t'), f='p'))
        return r.choice(c) if c else None
    def index(self, d): return self.ex([self.rng.choice(['int', 'int', 'uint', 'char', 'long'])], d) if d > 0 and self.rng.random() < .5 else lit(self.rng.randrange(3))
    def ex(self, t, d):
        r = self.rng; k = t[0]
        x = r.random()
        if d <= 0 or x < .25:
            l = self.lvalue(t, d)
            if l and (k not in INT + ['float', 'double'] or r.random() < .7): return l
            if k in INT: return lit(r.randrange(2 if k == 'bool' else 100), k)
            if k in ('float', 'double'): return dict(k='lit', t=t, v=1)
            if t == P(C): return dict(k='str')
            if k == 'ptr':
                if t == P(fn(I, I)): return dict(k='addr', a=var('fi'))
                if t == P(S): return dict(k='addr', a=var('gs'))
                if t == P(['st', 'T']): return dict(k='addr', a=dict(k='mem', a=var('gs'), f='t'))
                if t == P(I): return dict(k='addr', a=dict(k='idx', a=dict(k='mem', a=var('gs'), f='m'), i=self.index(d - 1)))
                return cast(t, lit(0))
            return l or var('gs')
        if x < .35 and k != 'bool':
            l = self.lvalue(t, d)
            if l and k not in ('arr',):
                if k in ('st', 'un'): return asn(l, self.ex(t, d - 1))
                if r.random() < .3 and (k in INT + ['float', 'double'] or (k == 'ptr' and t[1][0] not in ('void', 'fn'))): return dict(k='inc', op=r.choice('+-'), post=r.random() < .5, a=l)
                return asn(l, self.ex(t, d - 1))
        if x < .45: return cast(t, self.ex(r.choice([[z] for z in ARI]) if k != 'ptr' else r.choice([P(C), P(V), P(I), ['ulong']]), d - 1)) if k not in ('st', 'un') else self.ex(t, 0)
        if x < .55: return dict(k='cond', c=self.test(d - 1), a=self.ex(t, d - 1), b=self.ex(t, d - 1)) if k not in ('st', 'un') and k in ARI + ['ptr'] else self.ex(t, 0)
        if x < .6 and k not in ('st', 'un'): return dict(k='comma', l=self.ex(r.choice(POOL), d - 1), r=self.ex(t, d - 1))
        if x < .72:
            c = [f for f in FUNS.values() if f['ret'] == t and k not in ('st', 'un')]
            if c:
                f = r.choice(c); a = [self.ex(p['t'], d - 1) for p in f['ps']] + ([self.ex([z], d - 1) for z in ARI[:r.randrange(4)]] if f['va'] else [])
                if f['n'] == 'fi' and r.random() < .4: return callp(self.ex(P(fn(I, I)), d - 1), *a)
                return call(f['n'], *a)
        if k in ARI:
            if k == 'int' and r.random() < .4:
                y = r.random()
                if y < .4:
                    z = [r.choice(ARI)]; return bi(r.choice(['<', '>', '<=', '>=', '==', '!=']), self.ex(z, d - 1), self.ex([r.choice(ARI)], d - 1))
                if y < .5: z = r.choice([P(C), P(I), P(S), P(V)]); return bi(r.choice(['==', '!=', '<']), self.ex(z, d - 1), self.ex(z, d - 1))
                if y < .8: return dict(k=r.choice(['land', 'lor']), l=self.test(d - 1), r=self.test(d - 1))
                if y < .9: return un('!', self.test(d - 1))
                return dict(k='sizeof', t=r.choice(POOL + [S, U, g.arr(D, 4)]))
            if k == 'long' and r.random() < .2: z = r.choice([P(C), P(I), P(S)]); return bi('-', self.ex(z, d - 1), self.ex(z, d - 1))
            ops = ['+', '-', '*', '/'] + ([] if k in ('float', 'double') else ['%', '&', '|', '^'])
            y = r.random()
            if y < .2: return un(r.choice(['-', '+'] + ([] if k in ('float', 'double') else ['~'])), self.ex(t, d - 1))
            if y < .3 and k not in ('float', 'double'): return bi(r.choice(['<<', '>>']), self.ex(t, d - 1), self.ex([r.choice(ARI[:7])], d - 1))
            a, b = self.ex(t, d - 1), self.ex(t if r.random() < .5 else [r.choice(ARI[:ARI.index(k) + 1] + ['char', 'short'])], d - 1)
            if r.random() < .5: a, b = b, a
            return bi(r.choice(ops), a, b)
        if k == 'ptr' and t[1][0] not in ('void', 'fn'): return bi(r.choice('+-'), self.ex(t, d - 1), self.index(d - 1))
        return self.ex(t, 0)
    def test(self, d): return self.ex([self.rng.choice(ARI + ['char', 'bool'])], d)
    def stmt(self, d, ctx):
        r = self.rng; x = r.random()
        if d <= 0 or x < .35:
            t = r.choice(POOL); y = r.random()
            l = self.lvalue(t, 2)
            if y < .45 and l: return xs(asn(l, self.ex(t, 2)))
            if y < .6:
                t = [r.choice(ARI)]; l = self.lvalue(t, 2)
                if l: return xs(asn(l, self.ex(t, 1), r.choice(['+', '-', '*', '/'] + ([] if t[0] in ('float', 'double') else ['%', '&', '<<', '|']))))
            if y < .65: return xs(call('fv', self.ex(r.choice([P(C), P(I), P(V)]), 1), self.ex(['llong'], 1)))
            if y < .7: return xs(call('fz'))
            if y < .75: return xs(asn(var('gs'), call('fs', self.ex(P(S), 1))))
            if y < .8 and ctx['loop']: return r.choice([BRK, CONT])
            if y < .83 and ctx['brk']: return BRK
            if y < .86 and ctx['goal']: return goto(r.choice(ctx['goal']))
            if y < .9: return ret(self.ex(ctx['ret'], 2)) if ctx['ret'] != V else ret()
            return xs(self.ex(r.choice(POOL), 2))
        if x < .5:
            t = r.choice(POOL + [S, U, g.arr(I, 4), g.arr(P(C), 2)]); n = self.name()
            s = vd(n, t, self.ex(t, 2) if t[0] not in ('st', 'un', 'arr') and r.random() < .6 else None)
            self.sc[-1].append((n, t, 0)); return s
        if x < .62: return if_(self.test(2), self.blk(d - 1, ctx), self.blk(d - 1, ctx) if r.random() < .5 else EMPTY)
        if x < .7: return while_(self.test(2), self.blk(d - 1, dict(ctx, loop=1, brk=1)))
        if x < .75: return do_(self.blk(d - 1, dict(ctx, loop=1, brk=1)), self.test(2))
        if x < .83:
            self.sc.append([]); n = self.name(); init = []
            if r.random() < .6: init = [vd(n, I, self.ex(I, 1))]; self.sc[-1].append((n, I, 0))
            s = for_(init, self.test(2) if r.random() < .8 else dict(k='none'), self.stmt(0, dict(ctx, loop=0, brk=0, goal=[], ret=V)) if r.random() < .0 else xs(self.ex(I, 1)), None)
            s['b'] = self.blk(d - 1, dict(ctx, loop=1, brk=1)); self.sc.pop(); return s
        if x < .91:
            vals = r.sample(range(-5, 30), r.randint(1, 5)); b = []
            for v in vals: b += [case(v if v >= 0 else un('-', lit(-v)))] + ([self.blk(d - 1, dict(ctx, brk=1))] if r.random() < .7 else []) + ([BRK] if r.random() < .5 else [])
            if r.random() < .5: b.insert(r.choice([i for i, z in enumerate(b) if z['k'] == 'case']), DEF)
            return switch(self.ex(I, 2), *b)
        return self.blk(d - 1, ctx)
    def blk(self, d, ctx):
        r = self.rng; self.sc.append([]); lab = None
        if r.random() < .2: lab = 'L%d' % self.n; self.n += 1; ctx = dict(ctx, goal=ctx['goal'] + [lab])
        b = [self.stmt(d, ctx) for _ in range(r.randint(1, 3))]
        if lab: b = [label(lab)] + b if r.random() < .5 else b + [label(lab)]
        self.sc.pop(); return block(*b)
    def prog(self):
        r = self.rng; fs = []
        for k in range(r.randint(1, 3)):
            ps = [(self.name(), r.choice(POOL)) for _ in range(r.randint(0, 4))]; self.sc.append([(n, t, 0) for n, t in ps]); rt = r.choice([V, I, ['llong'], P(C), D, I])
            ctx = dict(loop=0, brk=0, goal=[], ret=rt)
            b = [self.stmt(3, ctx) for _ in range(r.randint(2, 5))] + ([ret(self.ex(rt, 2))] if rt != V else [])
            self.sc.pop(); fs.append(func('u%d' % k, rt, ps, *b))
        return BASE + fs + [MAIN]
def nodes(x, path=()):
    if isinstance(x, dict):
        if 'k' in x: yield path, x
        for k, v in x.items(): yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from nodes(v, path + (i,))
EXPR = {'lit', 'str', 'var', 'callp', 'sizeof', 'cast', 'idx', 'deref', 'mem', 'arrow', 'addr', 'un', 'bin', 'land', 'lor', 'cond', 'comma', 'asn', 'inc', 'call'}
STM = {'expr', 'empty', 'block', 'if', 'while', 'do', 'for', 'switch', 'break', 'continue', 'return', 'goto', 'decl'}
def mutate(rng, p):
    """one random change to a program"""
    p = copy.deepcopy(p); own = [i for i, d in enumerate(p) if d.get('n', '').startswith('u') and d['k'] == 'func']
    if rng.random() < .12:
        i = rng.randrange(len(p)); y = rng.random()
        if y < .3: del p[i]
        elif y < .6: p.insert(rng.randrange(len(p) + 1), copy.deepcopy(p[i]))
        else: d = p.pop(i); p.insert(rng.randrange(len(p) + 1), d)
        return p
    i = rng.choice(own); ns = [(q, x) for q, x in nodes(p[i]['body'])]
    g2 = Gen(rng); vs = [('%s' % q['n'], q['t'], 0) for q in p[i]['ps']]
    for _, x in ns:
        if x['k'] == 'decl' and rng.random() < .7: vs.append((x['n'], x['t'], 0))
    g2.sc.append(vs)
    rand = lambda: rng.choice([lambda: var('nil'), lambda: call('fz'), lambda: var('gs'), lambda: var('fi'), lambda: var('ga'), lambda: var('eb'), lambda: dict(k='str')] + [lambda: g2.ex(rng.choice(POOL), 1)] * 14)()
    if rng.random() < .6:
        c = [x for _, x in ns if x['k'] in EXPR]
        if not c: return p
        x = rng.choice(c); k = x['k']; y = rng.random()
        if y < .45: z = rand(); x.clear(); x.update(z)
        elif k == 'var': x['n'] = rng.choice(['nil', 'fi', 'gs', 'num', 'S'] + [v[0] for v in vs])
        elif k == 'call': rng.choice([lambda: x['args'].append(rand()), lambda: x['args'] and x['args'].pop(rng.randrange(len(x['args']))), lambda: x.update(f=rng.choice(['fi', 'fv', 'fz', 'nil', 'gi', 'fd', 'fp']))])()
        elif k == 'callp': rng.choice([lambda: x['args'].append(rand()), lambda: x['args'] and x['args'].pop()])()
        elif k in ('mem', 'arrow'): rng.choice([lambda: x.update(f=rng.choice('acmnqpzid')), lambda: x.update(k='arrow' if k == 'mem' else 'mem')])()
        elif k == 'bin': x['op'] = rng.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '==', '!='])
        elif k == 'asn': rng.choice([lambda: x.update(op=rng.choice(['=', '+', '-', '*', '%', '&', '<<'])), lambda: x.update(l=rand())])()
        elif k == 'inc': x['a'] = rand()
        elif k == 'un': x['op'] = rng.choice('+-~!')
        elif k == 'cast': x['t'] = rng.choice(POOL + [S, V, ['st', 'T']])
        elif k == 'addr': x['a'] = rand()
        elif k == 'deref': x['a'] = rand()
        else: z = copy.deepcopy(rng.choice(c)); x.clear(); x.update(z)
        return p
    c = [(q, x) for q, x in ns if x['k'] in STM or x['k'] in ('case', 'label', 'default')]
    if not c: return p
    q, x = rng.choice(c); y = rng.random(); k = x['k']
    if k == 'decl' and y < .6:
        if y < .25: x['t'] = rng.choice(POOL + [V, S, ['st', 'Opaque'], g.arr(I, 0)])
        elif y < .45: x['n'] = rng.choice([v[0] for v in vs] or ['v1'])
        else: x['n'] = 'other'
    elif k == 'return' and y < .7: x['val'] = not x['val']; x['e'] = rand()
    elif k == 'goto' and y < .5: x['n'] = rng.choice(['L%d' % j for j in range(12)])
    elif k == 'case' and y < .6: x['e'] = rng.choice([lit(rng.randrange(6)), var('eb'), var('gi'), lit(rng.randrange(30)), bi('+', lit(2), lit(3))])
    elif k == 'switch' and y < .5: x['e'] = rand()
    elif k in ('if', 'while', 'do') and y < .5: x['c'] = rand()
    elif k == 'for' and y < .5: x['c'] = rand()
    elif k in STM:
        z = rng.choice([BRK, CONT, goto('L%d' % rng.randrange(12)), ret(), ret(rand()), xs(rand()), EMPTY, vd('w', rng.choice(POOL), rand()), DEF, case(lit(3))]); z = copy.deepcopy(z)
        # replace or precede the statement
        par = p[i]['body']
        for s in q[:-1]: par = par[s]
        if 'step' in q[-1:] or (len(q) > 1 and q[-2] == 'init'): par[q[-1]] = z if z['k'] == 'expr' else EMPTY
        elif isinstance(par, list) and rng.random() < .7: par.insert(q[-1], z)
        elif isinstance(q[-1], int) or z['k'] not in ('decl',): par[q[-1]] = z if isinstance(par, list) or z['k'] not in ('default', 'case', 'decl') else EMPTY
    else:
        par = p[i]['body']
        for s in q[:-1]: par = par[s]
        if isinstance(par, list): par.pop(q[-1]) if y < .5 else par.insert(rng.randrange(len(par) + 1), copy.deepcopy(x))
    return p
# ---- running ---------------------------------------------------------------------------------
def job(a):
    tool, src, d, name = a
    f = os.path.join(d, name + '.c'); out = os.path.join(d, name + '.wasm')
    open(f, 'w').write(src); rc, so, se = tool.link([f], out)
    r = dict(rc=rc, msg=(so + se).decode(errors='replace'), out=os.path.exists(out))
    if r['out']:
        if rc == 0:
            import wasmtime
            try: wasmtime.Module.validate(ENGINE(), open(out, 'rb').read())
            except Exception as e: r['invalid'] = str(e)[:300]
        os.unlink(out)
    os.unlink(f)
    return r
_E = []
def ENGINE():
    import wasmtime
    if not _E: _E.append(wasmtime.Engine())
    return _E[0]
def based(p):
    n = len(BASE)
    return dict(base=True, p=g.clean(p[n:])) if p[:n] == BASE else dict(base=False, p=g.clean(p))
def judge(c, progs, part):
    d = build.scratch('wvr01-'); srcs = [text(p) for p in progs]
    res = lang.pmap(job, [(c.tool(), s, d, 'p%05d' % k) for k, s in enumerate(srcs)])
    for k, r in enumerate(res):
        det = dict(source=srcs[k], status=r['rc'], message=r['msg'][-600:])
        if not 0 <= r['rc'] < 64: c.violation('%s:crash' % part, 'compiler ended abnormally with status %d: %s' % (r['rc'], r['msg'].strip()[-200:]), det)
        elif r['rc'] == 0 and not r['out']: c.violation('%s:nofile' % part, 'accepted but no output file', det)
        elif r['rc'] == 0 and 'invalid' in r: c.violation('%s:module' % part, 'accepted program gives an invalid module: %s' % r['invalid'], det)
        elif r['rc'] and r['out']: c.violation('%s:file' % part, 'rejected but an output file was written', det)
        elif r['rc'] and not r['msg'].strip(): c.violation('%s:silent' % part, 'rejected without a diagnostic', det)
    t = c.tlc('StaticTrace', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', data=dict(data=dict(base=g.clean(BASE), progs=[dict(based(p), acc=r['rc'] == 0) for p, r in zip(progs, res)])), heap='8g', timeout=800)
    if t.distinct != 2 * len(progs): raise tlc.ModelError('TLC judged %d of %d programs' % (t.distinct - len(progs), len(progs)))
    opened = rej = 0; rules = {}
    for p in t.prints:
        k = p['i'] - 1
        if 'open' in p: opened += 1; continue
        if 'rej' in p:
            rej += 1
            for x in p['rej']: rules[x] = rules.get(x, 0) + 1
            continue
        why = ', '.join(sorted(p['bad'])) or '-'
        own = srcs[k][len(HEAD + ''.join(map(top, BASE))):]
        c.violation('%s:%s' % (part, p['want']), '%s expected (%s), compiler %s: %s' % (p['want'], why, 'accepts' if res[k]['rc'] == 0 else 'rejects ' + res[k]['msg'].strip()[:120].replace('\n', '|'), own[:300].replace('\n', ' ')), dict(source=srcs[k], rules=sorted(p['bad']), status=res[k]['rc'], message=res[k]['msg'][-500:]))
    c.traces += len(progs)
    c.part(part, programs=len(progs), ill_formed=rej, well_formed=len(progs) - rej - opened, open_question=opened, rules=rules, tlc_s=round(t.wall, 1))
def run(c):
    rng = c.rng
    judge(c, handmade(), 'rules')
    gr = grid(rng, 0.35 if not c.thorough else 1.0); judge(c, gr, 'grid')
    ps = []
    for _ in range(c.n(500, 6000)):
        p = Gen(rng).prog(); ps.append(p)
        for _ in range(5): ps.append(mutate(rng, p))
    for i in range(0, len(ps), 6000): judge(c, ps[i:i + 6000], 'random')
    c.sample(dict(program=text(ps[1])[-1500:]))
if __name__ == '__main__': check.main('R01', run)
