"""Syntax trees of the C subset: constructors, C text, typing for the generators, event recording.
The trees are the ones spec/CLang.tla interprets."""
import struct

INTS = ['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
CN = dict(bool='bool', char='char', uchar='unsigned char', short='short', ushort='unsigned short', int='int',
          uint='unsigned', long='long', ulong='unsigned long', llong='long long', ullong='unsigned long long',
          float='float', double='double', void='void')
W = dict(bool=1, char=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=4, ulong=4, llong=8, ullong=8)
SG = {'char', 'short', 'int', 'long', 'llong'}
RANK = dict(int=1, uint=1, long=2, ulong=2, llong=3, ullong=3)

def promote(t): return t if t in RANK else 'int'
def common(a, b):           # what the dialect does (used to generate well-typed programs, not as an oracle)
    a, b = promote(a), promote(b)
    for t in ('ullong', 'llong', 'ulong', 'long', 'uint'):
        if t in (a, b): return t
    return 'int'
def assignable(dst, src): return common(promote(dst), src) == promote(dst)

def wrap(v, t):
    """the value of type t congruent to v"""
    if t == 'bool': return int(bool(v))
    n = 8 * W[t]; v &= (1 << n) - 1
    return v - (1 << n) if t in SG and v >> (n - 1) else v
def tobytes(v, t): return list((v & ((1 << 8 * W[t]) - 1)).to_bytes(W[t], 'little'))

# --- types ------------------------------------------------------------------------------
def T(n): return [n]
def ptr(t): return ['ptr', t]
def arr(t, n): return ['arr', t, n]
def st(tag): return ['st', tag]
def un(tag): return ['un', tag]
def isint(t): return t[0] in W

def decl(t, name):
    """C declarator text"""
    k = t[0]
    if k == 'arr': return decl(t[1], '%s[%d]' % (name, t[2])) if t[1][0] != 'ptr' else decl(t[1], '%s[%d]' % (name, t[2]))
    if k == 'ptr':
        if t[1][0] == 'arr': return decl(t[1], '(*%s)' % name)
        return decl(t[1], '*' + name)
    if k == 'st': return 'struct %s %s' % (t[1], name)
    if k == 'un': return 'union %s %s' % (t[1], name)
    if k == 'va': return 'va_arg_t %s' % name
    if k == 'fnp': return '%s (*%s)(%s)' % (ctype(t[1]), name, ', '.join(ctype(x) for x in t[2]) or 'void')
    return ('%s %s' % (CN[k], name)).rstrip()
def ctype(t): return decl(t, '').strip()

# --- expressions -------------------------------------------------------------------------
def lit(v, t='int'): v = wrap(v, t); return dict(k='lit', t=[t], b=tobytes(v, t), _v=v)
def var(n): return dict(k='var', n=n)
def idx(a, i): return dict(k='idx', a=a, i=i)
def deref(a): return dict(k='deref', a=a)
def mem(a, f): return dict(k='mem', a=a, f=f)
def arrow(a, f): return dict(k='arrow', a=a, f=f)
def addr(a): return dict(k='addr', a=a)
def fun(n): return dict(k='fun', n=n)
def una(op, a): return dict(k='un', op=op, a=a)
def bin_(op, l, r): return dict(k='bin', op=op, l=l, r=r)
def land(l, r): return dict(k='land', l=l, r=r)
def lor(l, r): return dict(k='lor', l=l, r=r)
def cond(c, a, b): return dict(k='cond', c=c, a=a, b=b)
def comma(l, r): return dict(k='comma', l=l, r=r)
def cast(t, a): return dict(k='cast', t=t, a=a)
def asn(l, r, op='='): return dict(k='asn', op=op, l=l, r=r)
def inc(a, op='+', post=False): return dict(k='inc', op=op, post=post, a=a)
def call(f, *args): return dict(k='call', f=f, args=list(args))
def callp(a, t, *args): return dict(k='callp', a=a, t=t, args=list(args))
def sizeof(t): return dict(k='sizeof', t=t)
def alignof(t): return dict(k='alignof', t=t)
def offsetof(t, f): return dict(k='offsetof', t=t, f=f)
def countof(a): return dict(k='countof', a=a)
def sizeofx(e, t): return dict(k='sizeof', t=t, _e=e)        # sizeof expression of type t
def flit(v, t): return dict(k='lit', t=[t], b=list(struct.pack('<f' if t == 'float' else '<d', v)), _v=v, _c=('(%rf)' if t == 'float' else '(%r)') % v)
def emit(a): return dict(k='emit', a=a)
def dump(a): return dict(k='dump', a=a)
def zero(a): return dict(k='zero', a=a)
def pr(i, a): return dict(k='pr', id=i, a=a)
def tape(): return dict(k='tape')
def vastart(n): return dict(k='vastart', n=n)
def vaarg(n, t): return dict(k='vaarg', n=n, t=t)

def vacount(): return dict(k='vacount')
def spv(): return dict(k='spv')
def strict(dst, src): return dst == src or (dst in RANK and common(dst, src) == dst)   # implicit argument/return conversion

def litc(v, t):
    if t == 'bool': return '((bool)%d)' % v
    if t in ('long', 'ulong'): return '((%s)%s)' % (CN[t], litc(v, 'int' if t == 'long' else 'uint'))   # L suffixes: see KNOWN_FINDINGS
    if t in ('char', 'uchar', 'short', 'ushort'): return '((%s)%s)' % (CN[t], litc(v, 'int'))
    suf = dict(int='', uint='U', long='L', ulong='UL', llong='LL', ullong='ULL')[t]
    if v < 0:
        if v == -(1 << (8 * W[t] - 1)): return '(-%d%s-1%s)' % (-v - 1, suf, suf)
        return '(-%d%s)' % (-v, suf)
    return '%d%s' % (v, suf)

def cx(e):
    """C text of an expression, fully parenthesised"""
    k = e['k']
    if k == 'lit': return e['_c'] if '_c' in e else litc(e['_v'], e['t'][0])
    if k == 'var': return e['n']
    if k == 'idx': return '%s[%s]' % (cx(e['a']), cx(e['i']))
    if k == 'deref': return '(*%s)' % cx(e['a'])
    if k == 'mem': return '%s.%s' % (cx(e['a']), e['f'])
    if k == 'arrow': return '%s->%s' % (cx(e['a']), e['f'])
    if k == 'addr': return '(&%s)' % cx(e['a'])
    if k == 'fun': return '(&%s)' % e['n']
    if k == 'un': return '(%s%s)' % (e['op'], cx(e['a']))
    if k == 'bin': return '(%s %s %s)' % (cx(e['l']), e['op'], cx(e['r']))
    if k == 'land': return '(%s && %s)' % (cx(e['l']), cx(e['r']))
    if k == 'lor': return '(%s || %s)' % (cx(e['l']), cx(e['r']))
    if k == 'cond': return '(%s ? %s : %s)' % (cx(e['c']), cx(e['a']), cx(e['b']))
    if k == 'comma': return '(%s, %s)' % (cx(e['l']), cx(e['r']))
    if k == 'cast': return '((%s)%s)' % (ctype(e['t']), cx(e['a']))
    if k == 'asn': return '(%s %s %s)' % (cx(e['l']), e['op'] if e['op'] == '=' else e['op'] + '=', cx(e['r']))
    if k == 'inc': return '(%s%s)' % (cx(e['a']), e['op'] * 2) if e['post'] else '(%s%s)' % (e['op'] * 2, cx(e['a']))
    if k == 'call': return '%s(%s)' % (e['f'], ', '.join(cx(a) for a in e['args']))
    if k == 'callp': return '(*%s)(%s)' % (cx(e['a']), ', '.join(cx(a) for a in e['args']))
    if k == 'sizeof' and '_e' in e: return '((int)sizeof(%s))' % cx(e['_e'])
    if k == 'alignof': return '((int)alignof(%s))' % ctype(e['t'])
    if k == 'offsetof': return '((int)offsetof(%s, %s))' % (ctype(e['t']), e['f'])
    if k == 'countof': return '((int)countof(%s))' % cx(e['a'])
    if k == 'sizeof': return '((int)sizeof(%s))' % ctype(e['t'])
    if k == 'emit': return 'E_(%s)' % cx(e['a'])
    if k == 'dump': return 'd_((void*)&%s, (int)sizeof(%s))' % (cx(e['a']), ctype(e['_t']) if '_t' in e else cx(e['a']))
    if k == 'zero': return 'z_((void*)&%s, (int)sizeof(%s))' % (cx(e['a']), ctype(e['_t']) if '_t' in e else cx(e['a']))
    if k == 'pr': return 'p_(%d, %s)' % (e['id'], cx(e['a']))
    if k == 'tape': return 't_()'
    if k == 'vacount': return '((int)va_count())'
    if k == 'spv': return 'spv_()'
    if k == 'vastart': return 'va_start(%s, x)' % e['n']
    if k == 'mac': return e['_c'] if e.get('_obj') else '%s(%s)' % (e['_c'], ', '.join(unparen(a) for a in e['args']))
    if k == 'etc': return e['_c']
    if k == 'etcn': return '((int)countof(%s))' % e['_c'] if e.get('_i') else 'countof(%s)' % e['_c']
    if k == 'gen': return '(%s(%s, %s))' % (e['_c'], unparen(e['e']), ', '.join('%s: %s' % ('default' if x['t'][0] == 'default' else ctype(x['t']), unparen(x['e'])) for x in e['cs']))
    if k == 'genn': return '(generic(countof(%s), %s))' % (e['_c'], ', '.join('%s: %s' % ('default' if x['n'] < 0 else x['n'], unparen(x['e'])) for x in e['cs']))
    if k == 'vaarg': return 'va_arg(%s, %s)' % (e['n'], ctype(e['t']))
    raise ValueError(k)

# --- macros: nodes of spec/Macros.tla; _c is the text of the name -----------------------------
def unparen(e):
    s = cx(e)
    return s[1:-1] if e['k'] in ('bin', 'cond', 'land', 'lor', 'asn', 'un', 'cast', 'inc') and s[0] == '(' and s[-1] == ')' else s
def mac(n, c, args, obj=False): return dict(k='mac', n=n, args=list(args), _c=c, _obj=obj)
def etc(c='...'): return dict(k='etc', _c=c)
def etcn(c='...'): return dict(k='etcn', _c=c)
def gen(e, *cs, c='generic'): return dict(k='gen', e=e, cs=[dict(t=t, e=x) for t, x in cs], _c=c)
def genn(*cs, c='...'): return dict(k='genn', cs=[dict(n=n, e=x) for n, x in cs], _c=c)
def macro(c, ps, body, va=False, st=False, obj=False): return dict(ps=list(ps), va=va, st=st, body=body, _c=c, _obj=obj)
def cmacro(m):
    """the definition of a macro"""
    h = '#define ' + m['_c'] + ('' if m['_obj'] else '(%s)' % ', '.join(m['ps'] + (['...'] if m['va'] else [])))
    if m['st']: return h + ' do ' + ' '.join(cs(m['body'], '').split('\n')).strip() + ' while (0)\n'
    s = cx(m['body'])
    bare = m['body']['k'] in ('lit', 'var') and not s.startswith('(')
    return h + ' ' + (s if bare or (s[0] == '(' and m['body']['k'] in ('bin', 'cond', 'land', 'lor', 'asn', 'un', 'cast', 'inc', 'comma', 'gen', 'genn', 'lit', 'addr', 'deref')) else '(%s)' % s) + '\n'

# --- statements --------------------------------------------------------------------------
def xs(e): return dict(k='expr', e=e)
EMPTY = dict(k='empty')
def block(*b): return dict(k='block', b=list(b))
def if_(c, a, b=EMPTY): return dict(k='if', c=c, a=a, b=b)
def while_(c, b): return dict(k='while', c=c, b=b)
def do_(b, c): return dict(k='do', b=b, c=c)
def for_(init, c, step, b): return dict(k='for', init=init, c=c, step=step, b=b)
def switch(e, *b): return dict(k='switch', e=e, b=list(b))
def case(v): return dict(k='case', b=tobytes(v, 'int'), _v=v)
DEFAULT = dict(k='default')
BREAK = dict(k='break')
CONT = dict(k='continue')
def ret(e=None): return dict(k='return', val=e is not None, e=e or EMPTY)
def goto(n): return dict(k='goto', n=n)
def label(n): return dict(k='label', n=n)
def vdecl(n, t, e=None): return dict(k='decl', n=n, t=t, init=e is not None, e=e or EMPTY)

def strip(e):
    """drop the comma-free outer parentheses (statement position)"""
    s = cx(e)
    return s
def cs(s, ind='  '):
    k = s['k']; n = ind + '  '
    if k == 'expr':
        if s['e']['k'] in ('asn', 'inc', 'comma'): return ind + cx(s['e'])[1:-1] + ';\n'
        return ind + cx(s['e']) + ';\n'
    if k == 'empty': return ind + ';\n'
    if k == 'block': return ind + '{\n' + ''.join(cs(x, n) for x in s['b']) + ind + '}\n'
    if k == 'if':
        r = ind + 'if (%s)\n' % cx(s['c']) + cs(s['a'], n)
        if s['b']['k'] != 'empty': r += ind + 'else\n' + cs(s['b'], n)
        return r
    if k == 'while': return ind + 'while (%s)\n' % cx(s['c']) + cs(s['b'], n)
    if k == 'do': return ind + 'do\n' + cs(s['b'], n) + ind + 'while (%s);\n' % cx(s['c'])
    if k == 'for':
        i = ''.join(cs(x, '') for x in s['init']).strip() or ';'
        return ind + 'for (%s %s; %s)\n' % (i, cx(s['c']), cs(s['step'], '').strip().rstrip(';')) + cs(s['b'], n)
    if k == 'switch':
        return ind + 'switch (%s) {\n' % cx(s['e']) + ''.join(cs(x, n) for x in s['b']) + ind + '}\n'
    if k == 'case': return ind + 'case %s:\n' % litc(s['_v'], 'int')
    if k == 'default': return ind + 'default:\n'
    if k == 'break': return ind + 'break;\n'
    if k == 'continue': return ind + 'continue;\n'
    if k == 'return': return ind + ('return %s;\n' % cx(s['e']) if s['val'] else 'return;\n')
    if k == 'goto': return ind + 'goto %s;\n' % s['n']
    if k == 'label': return ind[2:] + '%s:\n' % s['n']
    if k == 'decl':
        d = decl(s['t'], s['n'])
        if s['init']: return ind + '%s = %s;\n' % (d, cx(s['e']))
        return ind + d + '; ' + cx(zero(dict(var(s['n'])))) .replace('(int)sizeof(%s)' % s['n'], '(int)sizeof(%s)' % ctype(s['t'])) + ';\n'
    raise ValueError(k)

def func(ret_, ps, body, va=False):
    return dict(ret=ret_, ps=[dict(n=n, t=t) for n, t in ps], va=va, body=body)
def cproto(name, f, static=True):
    a = [decl(p['t'], p['n']) for p in f['ps']]
    if f['va']: a.append('...')
    return '%s%s(%s)' % ('static ' if static else '', decl(f['ret'], name), ', '.join(a) or 'void')
def cfunc(name, f, static=True):
    return cproto(name, f, static) + ' {\n' + ''.join(cs(s) for s in f['body']) + '}\n'

def program(funs=None, tags=None, globals_=None):
    """funs: dict name -> func; tags: dict tag -> [(n, t)]; globals_: [(n, t, bytes)]"""
    funs = funs or {}
    order = list(funs)
    return dict(tags={k: [dict(n=n, t=t) for n, t in v] for k, v in (tags or {}).items()} or {'_': []},
                funs={n: dict(f, ix=i + 1) for i, (n, f) in enumerate(funs.items())},
                order=order, globals=[dict(n=n, t=t, b=list(b)) for n, t, b in (globals_ or [])])

def clean(x):
    """the tree without the generator's own annotations"""
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items() if not k.startswith('_') or k == '_'}
    if isinstance(x, (list, tuple)) and x and x[0] == 'fnp': return ['ptr', ['fn']]
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    return x

# --- event recording -----------------------------------------------------------------------
# Programs report through a private buffer flushed with write(2); the input vectors come from descriptor 0.
PRELUDE = r'''
#include <unistd.h>
#include <stdarg.h>
static unsigned char eb_[9000];
static int en_ = 0;
static void fl_(void) { int o = 0; while (o < en_) { int k = (int)write(1, (void*)&eb_[o], (size_t)(en_ - o)); if (k <= 0) _exit(97); o = o + k; } en_ = 0; }
static void ev_(int c, unsigned long long v) {
  int i;
  if (en_ > 8900) fl_();
  eb_[en_] = (unsigned char)c; en_ = en_ + 1;
  for (i = 0; i < 8; i = i + 1) { eb_[en_] = (unsigned char)v; en_ = en_ + 1; v = v >> 8; }
}
static void d_(void *p, int n) { unsigned char *q = (unsigned char*)p; int i; for (i = 0; i < n; i = i + 1) ev_(8, (unsigned long long)q[i]); }
static void z_(void *p, int n) { unsigned char *q = (unsigned char*)p; int i; for (i = 0; i < n; i = i + 1) q[i] = (unsigned char)0; }
static int p_(int id, int v) { ev_(9, (unsigned long long)id); ev_(1, (unsigned long long)v); return v; }
static unsigned long long ib_[64];
static int rd_(int n) {
  unsigned char *q = (unsigned char*)&ib_[0]; int o = 0; n = n * 8;
  while (o < n) { int k = (int)read(0, (void*)&q[o], (size_t)(n - o)); if (k <= 0) return 0; o = o + k; }
  return 1;
}
static int spv_(void) { int a[2]; a[0] = 0; return (int)(unsigned long)&a[0]; }
static unsigned char tb_[256]; static int tn_ = 0; static int ti_ = 0;
static void fin_(void) { fl_(); _exit(0); }
static int t_(void) { if (ti_ >= tn_) fin_(); ti_ = ti_ + 1; return (int)tb_[ti_ - 1]; }
#define TC_(e) (generic((e), unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, default: 1))
#define E_(e) (ev_(TC_(e), (unsigned long long)(e)))
'''

def events(out):
    """decode the byte stream into (code, bytes)"""
    return [(out[i], out[i + 1:i + 9]) for i in range(0, len(out) - 8, 9)]
def pack(c, b): return [c, b[0] + 256 * b[1] + 65536 * b[2], b[3] + 256 * b[4] + 65536 * b[5], b[6] + 256 * b[7]]

# --- random expressions ----------------------------------------------------------------------
BOUND = {}
for t in INTS:
    n = 8 * W[t]
    if t == 'bool': BOUND[t] = [0, 1]; continue
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t in SG else (0, (1 << n) - 1)
    c = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, 5, 7, -1, -2, -3, 10, 31, 63, 100, 1 << (n // 2), (1 << (n // 2)) - 1, hi // 2 + 1}
    if n > 8: c |= {127, 128, 255, 256, -128, -129}
    if n > 16: c |= {32767, 32768, 65535, 65536, -32768, 0x12345678}
    if n > 32: c |= {(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 31), (1 << 33) + 5, 0x123456789abcdef0}
    BOUND[t] = sorted(x for x in c if lo <= x <= hi)

def rval(rng, t):
    if rng.random() < .65: return rng.choice(BOUND[t])
    n = 8 * W[t]
    return wrap(rng.getrandbits(rng.choice([n, n // 2, 5])), t)

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['<', '>', '<=', '>=', '==', '!=']

class ExprGen:
    """Random well-typed integer expressions; unsequenced operands never interfere."""
    def __init__(self, rng, env, lits=True, lvs=None):
        self.rng = rng; self.env = env; self.lits = lits      # env: name -> type name
        self.lvs = lvs or {}                                  # name -> lvalue tree (default: the variable)
    def lv(self, n): return self.lvs[n] if n in self.lvs else var(n)
    def leaf(self, vs):
        r = self.rng
        if vs and (not self.lits or r.random() < .75): n = r.choice(vs); return self.lv(n), self.env[n]
        t = r.choice(INTS); return lit(rval(r, t), t), t
    def gen(self, d, rd, wr):
        """returns (expr, type name)"""
        r = self.rng
        if d <= 0: return self.leaf(rd + wr)
        x = r.random()
        if x < .08: return self.leaf(rd + wr)
        if x < .20:
            op = r.choice(['-', '~', '!', '+']); a, t = self.gen(d - 1, rd, wr)
            return una(op, a), ('int' if op == '!' else promote(t))
        if x < .32:
            t = r.choice(INTS); a, _ = self.gen(d - 1, rd, wr); return cast([t], a), t
        if x < .62:
            w = list(wr); r.shuffle(w); c = r.randint(0, len(w)); wl, w2 = w[:c], w[c:]
            op = r.choice(ARITH + CMP)
            l, tl = self.gen(d - 1, rd, wl); q, tq = self.gen(d - 1, rd, w2)
            if op in ('<<', '>>'):
                m = lit(8 * W[promote(tl)] - 1, r.choice(['int', 'uint', 'llong']))
                q = bin_('&', q, m)
                return bin_(op, l, q), promote(tl)
            if op in ('/', '%') and r.random() < .9:
                k = lit(r.choice([1, 3, 7, 10, 255, 1000]), r.choice(['int', 'uint', 'llong']))
                q = bin_('|', q, k) if r.random() < .5 else k
                tq = common(tq, k['t'][0]) if q is not k else k['t'][0]
            return bin_(op, l, q), ('int' if op in CMP else common(tl, tq))
        if x < .70:
            f = r.choice([land, lor]); l, _ = self.gen(d - 1, rd, wr); q, _ = self.gen(d - 1, rd, wr)
            return f(l, q), 'int'
        if x < .79:
            c, _ = self.gen(d - 1, rd, wr); a, ta = self.gen(d - 1, rd, wr); b, tb = self.gen(d - 1, rd, wr)
            return cond(c, a, b), common(ta, tb)
        if x < .84:
            l, _ = self.gen(d - 1, rd, wr); q, t = self.gen(d - 1, rd, wr); return comma(l, q), t
        if not wr: return self.gen(d - 1, rd, wr)
        n = r.choice(wr); t = self.env[n]
        if x < .91: return inc(self.lv(n), r.choice('+-'), r.random() < .5), promote(t)
        return self.assign(d, n, rd, wr)
    def assign(self, d, n, rd, wr):
        r = self.rng; t = self.env[n]
        rest = [v for v in wr if v != n]
        q, tq = self.gen(d - 1, rd + [n], rest)
        op = r.choice(['='] * 4 + ARITH)
        if op == '=':
            if not assignable(t, tq): q = cast([t], q)
            return asn(self.lv(n), q), promote(t)
        if op in ('<<', '>>'):
            q = bin_('&', q, lit(8 * W[promote(t)] - 1, 'int'))
            return asn(self.lv(n), q, op), promote(t)
        if op in ('/', '%'):
            q = lit(r.choice([1, 2, 3, 7, 10, 100]), 'int'); tq = 'int'
        if not assignable(t, common(t, tq)): q = cast([t], q)
        return asn(self.lv(n), q, op), promote(t)
