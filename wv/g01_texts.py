"""Hand-written texts for the grammar check: one construct or one error each."""
def handmade(F):
    o = []
    def body(s, pre=''): o.append('%s%s { %s }\n' % (pre, F, s))
    def e(s, pre=''): body('E_(%s);' % s, pre)
    # lexical structure
    for s in ['a+++d', 'a++ +d', 'a+ ++d', 'a+++++d', 'a- -d', 'a--d', 'a---d', 'a- - -d', 'a-- -d', 'a&&d', 'a& &d', 'a&&&d', 'a|||d', 'a||d', 'a<<1', 'a< <1', 'a<=1', 'a< =1', 'a>>1', 'a>>=1', 'a> >=1', 'a==d', 'a= =d', 'a!=d', 'a! =d', 'a<<=1', 'a<< =1',
              'a/*c*/+d', 'a/**/+d', 'a/***/+d', 'a/*/+d*/+1', 'a//x\n+d', 'a//x*/\n+d', 'a/d/*x*//2', 'a /* // */ + d', 'a // /*\n + d', "a+'/*'", "'//'", '"/*"[0]', '"//"[1]', 'a/ /d', '1+/**/+1', 'a/**/a', 'a /', '1u', '1U', '1LL', '1ull', '1ULL', '1uLL', '1llu', '1LLU', '1ll', '1Ll', '1lL', '1uu', '1ulll', '1lul', '0x', '0x1', '0X1f', '0xg', '0xFFu',
              '00', '07', '08', '019', '018', '0u', '0b1', '1a', '1_', '1e', '0x1p', '0xe+1', '0xE-1', '1.', '.5', '1..2', '1.2.3', "'a'", "''", "'ab'", "'", "'a", "'\\n'", "'\\0'", "'\\\\'", "'\\''", "'\\\"'", "'\"'", "'\\", '"\\"q"[1]', '"ab"[0]', '"ab" "cd"[3]', '"ab"/*c*/"cd"[2]', '"', '"a', '"a\n"[0]', '"a\\n"[1]', '""[0]', '*"abc"', '*"abc" "def"',
              "'a' 'b'", '1 2', 'a b', 'a 1', '1 a', '"a" b', '@a', 'a@d', '$a', 'a`d', '\\a', 'a \\', '#a', 'a # d', 'a ## d', 'a\td', 'a\f+d', 'a\n+\n\nd', 'a\r\n+d', 'a +\\\n d', 'a\\\n', 'A', 'aa', '_', 'a1', 'if', 'int', 'unsigned', 'Int', 'IF']: e(s)
    # operators: relative levels and associativity, all ordered pairs of neighbours
    ops = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
    for x in ops:
        for y in ops: e('a %s 3 %s d, 1 %s d %s 2, (d | 4) %s 2 %s (a & 1)' % ((x, y) * 3))
    for x in ops:
        for s in ['-a %s d', '!a %s !d', '~a %s ~d', 'a++ %s 2', '--a %s 2', '(char)a %s 2', '(int)c %s 3', 'a %s -3', 'a %s +3', 'a %s !d', 'a %s (char)d', 'a %s d ? 5 : 6', 'a ? d %s 3 : 7', 'a ? 7 : d %s 3', '(a %s 3, 8)', 'sizeof(int) %s 3', 'sizeof(char) %s a', '(a = d %s 3)', '(a = 1 %s d)', 'a %s d = 3', 'a %s (d = 3)', '(a) %s (d)', 'a %s', '%s a', 'a %s * d', 'a %s & d', 'a %s - d',
                  'a %s + d', 'a %s ? d', 'a %s (', 'a %s )', 'a %s ]', 'a %s , d', '(a %s) d', 'a (%s) d', 'a %s 1 2']: e(s.replace('%s', x))
        if x in ops[:7] + ['&', '^', '|']:
            body('a %s= 3; E_(a); E_(d);' % x); body('a %s= d + 2; E_(a);' % x); body('a %s = 3; E_(a);' % x); body('a = d %s= 3; E_(a); E_(d);' % x); body('a %s= d = 3; E_(a); E_(d);' % x); body('a %s= d, 1; E_(a);' % x); body('a %s= d ? 2 : 3; E_(a);' % x); body('a %s== 3; E_(a);' % x)
        else: body('a %s= 3; E_(a);' % x)
    for s in ['a ? 1 : 2', 'a ? 1 : d ? 2 : 3', 'a ? d ? 1 : 2 : 3', 'a ? 1, 2 : 3', 'a ? 1 : 2, 3', 'a ? (1) : (2)', 'a ? : 2', 'a ? 1 :', 'a ? 1', 'a : 1', '? 1 : 2', 'a ? 1 : 2 : 3', 'a ? 1 ? 2 : 3', 'a || d ? 1 : 2', 'a ? d = 3 : 4', 'a ? 4 : d = 3', 'a ? 4 : (d = 3)', '(a ? 4 : d) = 3', 'a = 1 ? 2 : 3', 'a = d ? 2 : 3', 'a ?1:2', 'a?1:d?2:3', '(a = 1, d = 2, a + d)',
              'a, d', 'a,', ',a', 'a,,d', '(a, d)', '(a,)', '(,a)', '()', '(a', 'a)', '((a))', '((a)', '(a))', '(((a + 1)) * 2)', '-(a)', '- -a', '--a', '-+-a', '!!a', '~~a', '!~-+a', '- - -a', '+ +a', '++a', '+ + +a', '+++a', '-++a', '++-a', '- --a', '--- a', '++a++', '(++a)++', 'a++ ++', 'a++--', '++ ++a', '++(a)', '(a)++', '(a)--', '++(a + 1)', '(a + 1)++', '++1', '1++', 'a = d = 4', '(a = d) = 4', 'a + d = 4', '-a = 4', '!a = d', '++a = d', 'a++ = d', '(a) = d', '((a)) = d', '(a, d) = 1',
              'a = = d', 'a = d +', '= a', 'a =', '&a', '*a', '&&a', '* *a', '*&a', '&*a', '*&a = 3', '-&a', '(int)a', '(int)(a)', '(int)-a', '(int)!a', '(char)300 + 1', '(char)(300 + 1)', '(int)a++', '(unsigned char)a << 4', '(long long)a * d', '(int)(char)c', '(int)c + (int)c', '(int) c', '(unsigned)a', '(unsigned)a > (unsigned)d', '(int unsigned)a', '(signed)a', '(long int)a', '(long long int unsigned)a', '(int', '(int)', '(int) )', '()a', '(int a)a', '(int,)a', '(int)a b', '((int)a)', '(int)(a)(d)', '(a)d', '(a) - d', '(a) + d', '(a) & d', '(a) * d', '(int) - d', '(int) * d', '(int) & d',
              '(int x)a', '(int*)a', '(void)a', '(const int)a', '(int const)a', '(volatile unsigned)a', '(static int)a', '(typedef int)a', '(register int)a', 'sizeof(int)', 'sizeof(a)', 'sizeof a', 'sizeof(int) + 1', 'sizeof(a + c)', 'sizeof(a) + 1', 'sizeof (a) * 2', 'sizeof(char)', 'sizeof(short)', 'sizeof(long long)', 'sizeof(int*)', 'sizeof(int[3])', 'sizeof(char[3][4])', 'sizeof(int(*)(int))', 'sizeof(int(*)[3])', 'sizeof(int*[3])', 'sizeof(int**)', 'sizeof(char(*)[3])', 'sizeof(char(*(*)[3])(int))', 'sizeof(char*(*[3])(int))', 'sizeof()', 'sizeof(', 'sizeof(int', 'sizeof int', 'sizeof(int a)', 'sizeof(int,)', 'sizeof(sizeof(a))', '-sizeof(char)', 'sizeof(int)(a)', 'sizeof(a)++', 'sizeof(int)[a]',
              'a.x', 'a->x', 'a.', 'a->', '.a', '->a', 'a . 1', 'a[0]', 'a[', 'a]', '[a]', 'a(1)', 'a()', 'a(', '1(2)', '1[a]', 'f', 'f()', 'zz', 'zz(1)', 'b', 'b + a', 'c', 'c + b', '-b', '~b', 'b / 3', 'b % 7', 'b > a', 'c > b', 'c << 3', 'b >> 1', 'a >> 1', '-1 >> 1', '-1 < 1u', '1 - 2u > 0', "'a' + 1", '100 - 10 - 1', '100 / 10 / 2', '2 * 3 % 4', '7 % 4 * 2', '1 << 2 << 1', '64 >> 2 >> 1', '1 < 2 < 3', '3 > 2 > 1', '1 == 1 == 2', '5 & 6 == 6', '1 | 2 ^ 3 & 4', '1 || 0 && 0', '!1 + 1', '~0 & 15', '-3 % 2', '2 + 3 << 1', '1 + 2 * 3 - 4 / 2', '10 - 4 + 3', '8 / 2 * 4', '1 ? 0 ? 3 : 4 : 5']: e(s)
    # statements
    dang = ['if (a) if (d) E_(1); else E_(2);', 'if (a) { if (d) E_(1); } else E_(2);', 'if (a) if (d) E_(1); else E_(2); else E_(3);', 'if (a) ; else E_(1);', 'if (a) E_(1) else E_(2);', 'if a E_(1);', 'if (a E_(1);', 'if () E_(1);', 'if (a) else E_(1);', 'if (a)', 'else E_(1);', 'if (a) E_(1); else', 'if (a) E_(1); E_(2); else E_(3);', 'if (a) E_(1); else E_(2); else E_(3);', 'if (a) for (;;) if (d) break; else { E_(5); break; } else E_(2);',
            'if (a) while (a-- > 0) if (d) E_(1); else E_(2);', 'if (a) while (a-- > 0) if (d) E_(1); else E_(2); else E_(3);', 'if (a) do if (d) E_(1); else E_(2); while (0); else E_(3);', 'if (a) if (d) if (b) E_(1); else E_(2); else E_(3);', 'if (a) switch (d) { case 1: if (b) E_(1); else E_(2); } else E_(3);', 'if (a) { } else { E_(1); }', 'if (a) E_(1), E_(2); else E_(3), E_(4);', 'if (a, d) E_(1); else E_(2);', 'if (a = d) E_(a);', 'if (a == d) E_(a); E_(9);', 'if ((a)) E_(1);', 'if (a); E_(1);', 'if (a)) E_(1);', 'if ((a) E_(1);', 'if (int x = a) E_(1);', 'if (a) int x = 1;', 'if (a) { int a = 7; E_(a); } E_(a);',
            'while (a & 3) a--; E_(a);', 'while (a & 3) { a--; } E_(a);', 'while (a & 3) if (--a & 1) E_(a);', 'while () ;', 'while (0) ; E_(1);', 'while (0) E_(1); E_(2);', 'while a ;', 'while (0)', 'while', 'while (a) { break; } E_(a);', 'while (a-- > 0 && a < 5) ; E_(a);', 'do E_(1); while (0);', 'do E_(1); while (0)', 'do { E_(1); } while (0);', 'do E_(1); E_(2); while (0);', 'do while (0); while (0); E_(3);', 'do ; while (a++ < 0); E_(a);', 'do { } while (); E_(1);', 'do while (0);', 'do { } E_(1);', 'do { E_(a); } while (a-- > 5 && a < 9);', 'do if (a) E_(1); else E_(2); while (0);', 'do do E_(1); while (0); while (0);',
            'for (a = 0; a < 3; a++) E_(a);', 'for (int i = 0; i < 3; i++) E_(i);', 'for (int i = 0, j = 9; i < j; i += 3, j--) E_(i + j);', 'for (;;) break;', 'for (;;) { break; } E_(1);', 'for (a = 0, d = 3; a < d; a++, d--) ; E_(a);', 'for (a = 0; a < 3; ) a++; E_(a);', 'for (a = 0; a < 3) a++;', 'for (a = 0; a < 3; a++;) ;', 'for (a = 0, a < 3, a++) ;', 'for (a = 0; a < 3; a++ E_(a);', 'for a = 0; a < 3; a++ ;', 'for (a = 0; a < 3; a++)', 'for () ;', 'for (;) ;', 'for (;;;) ;', 'for (int i; i < 0; ) ;', 'for (int i = 0; i < 2; i++) { int i = 5; E_(i); }', 'for (int i = 0; i < 2; i++) ; E_(i);', 'for (int a = 0; a < 2; a++) ; E_(a);',
            'for (a = 0; a < 4; a++) { if (a == 2) continue; E_(a); }', 'for (a = 0; a < 4; a++) { if (a == 2) break; E_(a); } E_(a);', 'for (a = 0; a < 2; a++) for (d = 0; d < 2; d++) E_(a + d * 10);', 'for (a = 0; a < 2; a++) for (d = 0; d < 3; d++) if (d == 1) break; else E_(d);', 'for (a = 0; a < 2; a++) while (1) break; E_(a);', 'for (struct z { int x; } i; ; ) ;', 'for (static int i = 0; i < 1; i++) ;', 'for (register int i = 0; i < 2; i++) E_(i);',
            'switch (a) { case 0: E_(0); case 1: E_(1); break; default: E_(2); }', 'switch (a) { default: E_(2); case 0: E_(0); break; case 1: E_(1); }', 'switch (a) { }', 'switch (a) { case 1: }', 'switch (a) { case 1: case 2: E_(1); }', 'switch (a) { case 0: { E_(0); break; } case 1: E_(1); }', 'switch (a) case 1: E_(1);', 'switch (a) E_(1);', 'switch (a) { E_(1); case 0: E_(2); }', 'switch a { }', 'switch () { }', 'switch (a) { case : E_(1); }', 'switch (a) { case a: E_(1); }', 'switch (a) { case 1 E_(1); }', 'switch (a) { case 1: E_(1) }', 'switch (a) { default E_(1); }', 'switch (a) { case 0: break; } E_(7);', 'switch (a) { case 1: case 1: ; }', 'switch (a) { default: default: ; }',
            'switch (a) { case 1:; default:; }', 'switch (a) { case 0: switch (d) { case 4: E_(1); break; default: E_(3); } E_(4); break; case 1: E_(2); }', 'switch (a) { case 1 + 0: E_(1); }', 'switch (a) { case (1): E_(1); break; default: E_(2); }', "switch (a) { case 'a': E_(1); break; default: E_(2); }", 'switch (a) { case 0: if (d) case 1: E_(1); }', 'switch (a) { case 0, 1: E_(1); }', 'case 1: E_(1);', 'default: E_(1);', 'switch (a) { case 0: for (;;) { break; } E_(1); break; case 1: E_(2); }',
            'break;', 'continue;', 'break', 'return;', 'return; E_(1);', 'return 1;', 'return', 'return a', 'goto x;', 'goto;', 'goto', '{ goto e; e: }', '{ a--; if (a > 0) goto e; E_(1); e: } E_(2);', '{ l: a &= 3; if (a-- > 0) goto l; } E_(a);', '{ l: E_(1); goto l2; l2: }', 'l: E_(1);', '{ goto m; } m: ;', '{ l: { goto l; } }', '{ l: l: }', '{ l: } { l: }',
            ';', ';;', '{ }', '{ ; }', '{ { } }', '{', '}', '{ } }', '{ {', 'E_(1)', 'E_(1) E_(2);', 'E_(1);;E_(2);', 'a', 'a;', 'a d;', '1;', '"x";', '(a);', 'a = 1', 'a = 1; E_(a)', '; E_(1);', 'E_(1), E_(2);', 'E_(1);} ', 'E_(a) ;', 'E_ (a);', 'E_(a d);', 'E_();', 'E_(a,d);', 'E_((a,d));', 'E_(;', 'E_(a;', 'E_(a));', 'int;', 'int x;', 'int x', 'int x E_(1);', 'int x = 1; E_(x);', 'int x = 1, y = 2; E_(x + y);', 'int x = 1, y = x + 1; E_(y);', 'int x = 1 y = 2;', 'int x, ;', 'int , x;', 'int x,, y;', 'int x = ;', 'int = 1;', 'int x = 1 2;', 'int x = 1, 2;', 'int x = (1, 2); E_(x);', 'int x == 1;', 'int 1;', 'int a1 = a; E_(a1);', 'int x y;', 'int int x;', 'int x; int x;', 'int a = 1; E_(a);', '{ int a = 1; E_(a); } E_(a);',
            'int x = 1; { int x = 2; E_(x); { int x = 3; E_(x); } E_(x); } E_(x);', 'int (x) = 4; E_(x);', 'int ((x)) = 4; E_(x);', 'int (x = 4);', 'int *p, q = 2; E_(q);', 'int x[2]; x[1] = 4; E_(x[1]);', 'int x[]; ', 'int x[0];', 'int x[-1];', 'int [2] x;', 'int x[2;', 'int x 2];', 'int x[2](3);', 'int (*g)(int); E_(1);', 'int (g)(int);', 'int *g();', 'void x;', 'void *x; E_(1);', 'auto int x = 3; E_(x);', 'auto x = 3;', 'register int x = 3; E_(x);', 'static int x = 3;', 'extern int x;', 'register auto int x;', 'auto auto int x;', 'static static int x;', 'const int x = 3; E_(x);', 'int const x = 3; E_(x);', 'const x = 3;', 'int * const p; E_(1);', 'int const * p; E_(1);', 'int * const * volatile p; E_(1);',
            'int volatile const x = 3; E_(x);', 'int x const;', 'int p * ;', 'int const, x;', 'int x, const y;', 'int x, const *y;', 'int x, * const y; E_(1);', 'int x = 1, (y) = 2; E_(x + y);', 'int x : 3;', 'typedef int T; T x = 1;', 'struct s { int x; } v;', 'enum { Q } x;', 'unsigned x = 1u; E_(x);', 'unsigned int x = 1u; E_(x);', 'long long x = 1LL; E_(x);', 'long unsigned x = 1u; E_(x);', 'short unsigned int x = 1; E_(x);', 'char signed x = 1; E_(x);']
    for s in dang: body(s)
    for p in ['int', 'int int', 'signed int', 'int signed', 'signed signed', 'unsigned unsigned', 'signed unsigned', 'unsigned signed int', 'short', 'short int', 'int short', 'short short', 'short long', 'long short', 'long', 'long int', 'int long', 'long long', 'long long int', 'long int long', 'int long long', 'long long long', 'long long long int', 'unsigned long long', 'long unsigned long', 'long long unsigned', 'unsigned long unsigned', 'char', 'signed char', 'char signed', 'unsigned char', 'char unsigned', 'char char', 'char int', 'int char', 'short char', 'long char', 'unsigned char int', 'short int unsigned', 'unsigned int short', 'int unsigned int', 'signed long', 'long signed int', 'short signed', 'void', 'void int', 'unsigned void', 'void void',
              'float', 'double', 'float float', 'double double', 'float double', 'long float', 'unsigned float', 'short double', 'unsigned double', 'int double', 'long long double', 'const', 'const int', 'int const', 'const const int', 'const unsigned const', 'volatile', 'unsigned const char', 'long const long', 'struct', 'struct struct s', 'union', 'enum', 'struct int', 'int struct s', 'struct s int', 'static', 'static int', 'int static', 'static static int', 'extern static int', 'typedef', 'inline int', 'signed', 'unsigned', 'unsigned long int', 'int long unsigned', 'unsigned int long long', 'T', 'x']:
        o.append('%s gz;\n%s { E_(1); }\n' % (p, F)); o.append('%s *gz;\n%s { E_(sizeof(*gz)); }\n' % (p, F)); o.append('%s gz(%s q);\n%s { E_(1); }\n' % (p, p, F)) if 0 else None
        e('sizeof(%s)' % p); body('%s z9 = 1; E_(z9);' % p); o.append('int g(%s q) { E_(1); return 2; }\n%s { E_(3); }\n' % (p, F))
    # declarators
    for s in ['int *x;', 'int x[3];', 'int x[3][2];', 'int *x[3];', 'int (*x)[3];', 'int (*x)(int);', 'int *(*x)(int);', 'int (*x[3])(int);', 'int (*(*x)(int))(char);', 'int **x;', 'int (x);', 'int (*x);', 'int *(x);', 'int (*(x));', 'int ((x))[3];', 'int (x[3]);', 'int (*x[2])[3];', 'int *(*x[2])[3];', 'int (**x)[3];', 'int *(x[3]);', 'int (*(*x)[2])(int);', 'char (*(*x[2])(void))[3];', 'int x, y;', 'int x, *y;', 'int *x, y;', 'int x[2], y;', 'int x, y[2], *z;', 'int (*x)(int), y;', 'int x = 3;', 'int x = 3, y = 4;', 'int x = y;', 'int x = -3;', 'int x = 3 + 4 * 2;', 'int x = (1, 2);', 'int x = 1, 2;', 'int x =;', 'int x = 3', 'int x 3;', 'int x[2',
              'int x];', 'int x);', 'int (x;', 'int x(;', 'int x(int;', 'int x(int', 'int x,;', 'int ,x;', 'int *;', 'int * *;', 'int [2];', 'int (*)(int);', 'int ();', 'int x y;', 'int x * ;', 'int * const x;', 'int const * x;', 'int * const volatile * x;', 'int const x;', 'int x const;', 'int (const x);', 'int x, const y;', 'int const, x;', 'const int x;', 'int x[2] const;', 'int (* const x)(int);', 'int (const * x);', 'int & x;', 'int x[](2);', 'int x[2](int);', 'int x(int)[2];', 'int x(int)(int);', 'int (*x(int))[2];', 'int x[a];', 'int x[0x2];', 'int x[010];', "int x['a'];", 'int x[2 + 1];', 'int x[1, 2];', 'int x[2]3;', ';', ';;', 'int;', 'x;', 'x', 'x = 3;', '3;', 'int x;;', 'int x; int x;', 'int x; char x;', 'typedef int T; T x;', 'typedef int T; T T2;', 'typedef int T; unsigned T x;',
              'typedef int T; T unsigned x;', 'typedef int *T; T x; int y; ', 'typedef int *T, U;', 'typedef int T[3]; T x;', 'typedef int T(int); T *x;', 'typedef int (*T)(int); T x;', 'typedef int (*T)(int); T x[2];', 'typedef T;', 'typedef int;', 'typedef int T', 'typedef int T = 3;', 'typedef int T {', 'typedef typedef int T;', 'typedef static int T;', 'static typedef int T;', 'int typedef T;', 'typedef struct s T; T *x;', 'typedef struct s { int q; } T; T x;', 'typedef enum { Q, R } T; int x;', 'typedef int T; T;', 'typedef int T; T T;', 'typedef int T; int T;', 'typedef const int T; T x;', 'typedef int const T; T x;', 'typedef unsigned char T; T x; T y;', 'typedef struct { int q; } T; T x;', 'typedef int T; typedef T U; U x;', 'typedef int T; typedef T *U; U x;',
              'struct s { int q; };', 'struct s { int q; } x;', 'struct s { int q; } x, *y;', 'struct s { int q; }', 'struct s { int q }', 'struct s { int q };', 'struct s { q; };', 'struct s { int; };', 'struct s { };', 'struct s;', 'struct s *x;', 'struct s x;', 'struct { int q; } x;', 'struct { int q; };', 'struct s { int q, r; };', 'struct s { int q, *r, t[2]; };', 'struct s { int q,; };', 'struct s { int ,q; };', 'struct s { int q;; };', 'struct s { int q; int q; };', 'struct s { int q = 1; };', 'struct s { int q : 3; };', 'struct s { const int q; };', 'struct s { static int q; };', 'struct s { int (*q)(int); };', 'struct s { int q(int); };', 'struct s { int q[2][3]; };', 'struct s { struct s *q; };', 'struct s { struct s q; };', 'struct s { int q; struct { int r; } t; };',
              'struct s { int q; } int x;', 'struct s int q; };', 'struct s [2];', 'struct { };', 'struct s s;', 'struct s { int q; }; struct s x;', 'struct s { int q; }; union s x;', 'struct s { int q; }; s x;', 'struct s { int q; } struct t { int q; };', 'union u { int q; char r; };', 'union u { int q; } x;', 'enum e { A };', 'enum e { A, B };', 'enum e { A, B, };', 'enum e { };', 'enum { A };', 'enum e { A B };', 'enum e { A; B };', 'enum e { A = 1, B };', 'enum e { A = 1 B };', 'enum e { A = , B };', 'enum e { A == 1 };', 'enum e { 1 };', 'enum e { , A };', 'enum e { A,, B };', 'enum e { A, A };', 'enum e { A = 1, B = A + 1 };', 'enum e { int };', 'enum e { A } x;', 'enum e { A', 'enum e A };', 'enum e;', 'enum e x;', 'enum e { A }; enum e x;', 'enum e { A = 1 ? 2 : 3 };', 'enum e { A = (1, 2) };', 'enum e { A = 1, 2 };',
              'static int x;', 'int static x;', 'extern int x;', 'static static int x;', 'extern static int x;', 'static extern int x;', 'auto int x;', 'register int x;', 'static x;', 'static;', 'static int;', 'const x;', 'const;', 'static const int x = 3;', 'const static int x = 3;', 'void x;', 'void *x;', 'void x[2];', 'void (*x)(void);', 'int f();', 'void f(int, unsigned, long long, int);', 'void f(int a, unsigned b, long long c, int d);', 'void f(int z, unsigned, long long y, int);', 'void f(void);', 'int x = 1; int y = x;', 'asm;', 'int x; }', '{ int x; }', '( int x );', 'int x {', 'int x { }', 'int x[2] { }', 'int *x { }', 'if (1) ;', 'E_(1);', 'return;', '/* x', '/* x */', '// x', '/* /* */', '*/', '"s";', "'c';", 'int x; /* ', 'int x; // \\']:
        o.append('%s\n%s { E_(1); }\n' % (s, F)); o.append('%s { E_(1); }\n%s\n' % (F, s))
    # functions
    for s in ['int g(void) { return 3; }', 'int g() { return 3; }', 'int g(int x) { return x; }', 'int g(int x, int y) { return x - y; }', 'int g(int x, y) { return x; }', 'int g(x) int x; { return x; }', 'int g(x, y) { return 1; }', 'int g(int x,) { return x; }', 'int g(,int x) { return x; }', 'int g(int x,, int y) { return x; }', 'int g(int x int y) { return x; }', 'int g(int x; int y) { return x; }', 'int g(int) { return 1; }', 'int g(void x) { return 1; }', 'int g(void, int x) { return 1; }', 'int g(void, ...) { return 1; }', 'int g(int x, ...) { return x; }', 'int g(int x ...) { return x; }', 'int g(...) { return 1; }', 'int g(int x, ..., int y) { return x; }', 'int g(int x, .. .) { return x; }', 'int g(int x, ...,) { return x; }',
              'int g(int x = 1) { return x; }', 'int g(int x[2]) { return 1; }', 'int g(int *x) { return 1; }', 'int g(int (*x)(int)) { return 1; }', 'int g(int x(int)) { return 1; }', 'int g(int x, int x) { return 1; }', 'int g(const int x) { return x; }', 'int g(int const x) { return x; }', 'int g(int * const x) { return 1; }', 'int g(static int x) { return x; }', 'int g(register int x) { return x; }', 'int g(unsigned) ;', 'int g(int x) { return x; };', 'int g(int x) return x;', 'int g(int x) { return x;', 'int g(int x) return x; }', 'int g(int x) { return x; } }', 'int g(int x) { { return x; }', 'int g { return 1; }', 'int g[2] { return 1; }', 'int *g { return 1; }', 'g(int x) { return x; }', 'g() { }', 'int (g)(int x) { return x; }', 'int (*g)(int x) { return x; }', 'int (*g(int x))(int) { return (int (*)(int))0; }', 'int (*g(int x))[2] { return (int (*)[2])0; }', 'int *g(int x) { return (int*)0; }', 'int (*g)(int x); int h(int x) { return x; }',
              'int g(int x)[2] { return 1; }', 'int g(int x) { int x = 3; return x; }', 'int g(int x) { { int x = 3; E_(x); } return x; }', 'void g(void) { }', 'void g() { }', 'void g(void) { return; }', 'void g(void) { return 1; }', 'int g(void) { return; }', 'int g(void) { }', 'int g(void) { E_(1); }', 'static int g(void) { return 1; }', 'extern int g(void) { return 1; }', 'typedef int g(void) { return 1; }', 'int g(void), h;', 'int h, g(void);', 'int g(void) { return 1; } int h(void) { return 2; }', 'int g(void) { return 1; }, h;', 'int g(void), { return 1; }', 'int g(void) = 1;', 'int g(int a, char b), h(int); int g(int a, char b) { return a; } int h(int z) { return z; }', 'int g(void); int g(void) { return 1; }', 'int g(void) { int h(void) { return 1; } return 2; }', 'const int g(void) { return 1; }', 'int const g(void) { return 1; }', 'unsigned long long g(unsigned long long x) { return x; }', 'int inline g(void) { return 1; }', 'void g(int x) { if (x) return; E_(x); }', 'int g(int (x)) { return x; }', 'int g(int ((x))) { return x; }', 'int g(int (*)(int)) { return 1; }', 'int g(int *, int **); int g(int *x, int **y) { return 1; }', 'int g(char, short); int g(char x, short y) { return x + y; }']:
        o.append('%s\n%s { E_(1); }\n' % (s, F)); o.append('%s\n%s { E_(g(7)); }\n' % (s, F)); o.append('%s\n%s { E_(g()); E_(g(2, 3)); }\n' % (s, F))
    G = 'int g(int x, int y) { return x * 10 + y; } int h(int x) { return x + 1; } int z(void) { return 5; }\n'
    for s in ['g(1, 2)', 'g(1, 2,)', 'g(,1, 2)', 'g(1,, 2)', 'g(1 2)', 'g(1; 2)', 'g((1, 2), 3)', 'g(1, (2, 3))', 'g(1, 2)(3)', 'g (1, 2)', 'g', '(g)(1, 2)', '(*g)(1, 2)', '(&g)(1, 2)', '(*&g)(1, 2)', '(**g)(1, 2)', 'g(g(1, 2), h(3))', 'h(h(h(1)))', 'h(1)++', 'h(1) = 2', '-h(1)', 'h(-1)', 'h(1) + h(2) * h(3)', 'h(a = 3)', 'h(a, d)', 'h(a ? 1 : 2)', 'h((a))', 'h(a', 'h a)', 'h(a))', 'h[a]', 'h(1)[0]', 'z()', 'z(void)', 'z( )', 'z(,)', 'z', 'z() + z()', 'z(1)', '!z()', 'h(int)', 'h(int x)', 'h((int)c)', 'sizeof(h(1))', '(int)h(1)', '(h)(1)', '(h(1))', 'h(1)(2)', 'h(h)', 'h(&h)', 'h("a"[0])', "h('a')"]: e(s, G)
    A = 'struct s { int x; int y[3]; struct s *n; char t; }; struct s v; struct s w[2]; struct s *p; int m[3][2]; int k[4]; int *q; int (*fp)(int); int hh(int x) { return x * 2; } int *kp[2]; char *cp;\n'
    for s in ['v.x', 'v.y[1]', 'v . x', 'v.x = 3', 'v.y[1] = 4', 'v.y', 'v.z', 'v->x', 'v.1', 'v.', 'v..x', 'v.x.x', 'v.int', 'w[1].x = 3', 'w[1].y[2] = 5', 'w.x', 'w[1]x', 'w[1].x++', '++w[1].x', '-w[1].x', '&w[1].x == &w[1].x', 'p = &v, p->x = 6', 'p = &v, (*p).x = 6', 'p = &w[0], p++, p->x = 7, w[1].x', 'p = &v, *p.x', 'p = &v, p.x', 'p = &v, p->y[1] = 2, v.y[1]', 'p = &v, p->n = &w[1], p->n->x = 8, w[1].x', 'p = &v, p - > x', 'p = &v, p->x++, p->x', 'p = &v, ++p->x, v.x', 'p = &v, -p->x', '(p = &v)->x', 'p = &v->x', '(&v)->x', '(*&v).x', '*&v.x', '&v.x == &v.x', '(v).x', '(v.x)', 'v.(x)', 'v.x[0]', 'm[1][1] = 3', 'm[1][1]', 'm[1,1]', 'm[1, 1][0]', 'm[1][', 'm[1]]', 'm[]', 'm[1][1][1]', 'm[m[1][0]][0]',
              '*&k[1]', '&k[1] - &k[0]', '&k[3] - &k[1] * 1', 'k[1] = k[2] = 3', 'k[a & 3]', 'k[a & 3]++', '(k[1])', '(k)[1]', 'k [1]', '1[k]', 'k[1]k[2]', 'k[k[0]]', '*k', 'k + 1', '&k[1] + 1 == &k[2]', '&k', '&k[1] > &k[0]', 'q = &k[1], *q', 'q = &k[1], *q++', 'q = &k[1], *++q', 'q = &k[1], (*q)++', 'q = &k[1], ++*q, k[1]', 'q = &k[1], *q = 3, k[1]', 'q = &k[0], *(q + 2) = 4, k[2]', 'q = &k[0], *q + 2', 'q = &k[0], q[1] = 4', 'q = &k[1], q[-1]', 'q = &k[1], q - &k[0]', 'q = &k[1], q--, q == &k[0]', 'q = &k[1], -*q', 'q = &k[1], - *q', 'q = &k[1], 1-*q', 'q = &k[1], 1*-*q', 'q = &k[1], 2**q', 'q = &k[1], 2/ *q', 'q = &k[0], *q&1', 'q = &k[0], 1&*q', 'q = &k[0], 1&&*q', 'q = &k[0], *&*q', 'q = &k[0], &*q == q',
              'q = &k[0], !*q', 'q = &k[0], ~*q', 'q = &k[0], (int)*q', 'q = &k[0], (char)*q + 1', 'q = &k[0], *q += 3, k[0]', 'q = &k[0], *q++ = 5, q - &k[0]', 'kp[1] = &k[2], *kp[1] = 9, k[2]', 'kp[1] = &k[1], (*kp[1])++, k[1]', 'kp[0] = &k[0], *kp[0]++, kp[0] - &k[0]', 'kp[1] = &k[2], kp[1][-1] = 4, k[1]', '&m[1][0] - &m[0][0]', 'fp = &hh, (*fp)(3)', 'fp = &hh, fp(3)', 'fp = &hh, *fp(3)', 'fp = hh, (*fp)(3)', 'fp = &hh, (*fp)(3, 4)', 'fp = &hh, (*fp)()', 'fp = &hh, (**fp)(3)', 'fp = &hh, (*fp) (3) + 1', 'fp = &hh, -(*fp)(3)', 'fp = &hh, (*fp)((*fp)(3))', 'fp = &hh, fp == &hh', 'fp = &hh, (*fp)[3]', 'cp = "abc", cp[1]', 'sizeof(v)', 'sizeof(v.y)', 'sizeof(*p)', 'sizeof(p->y[0])', 'sizeof(k)', 'sizeof(m[0])', 'sizeof(struct s)', 'sizeof(struct s *)', 'sizeof(k[0])', 'sizeof(*q)', 'sizeof(q)', 'sizeof(w) / sizeof(w[0])', 'sizeof(k) - 1', '(int)sizeof(k)', '(struct s *)&v == &v', '((struct s *)&v)->x', '(struct s)v', '*(int*)&k[1]', '*(char*)&k[1]', '(int*)&k[1] == &k[1]']: e(s, A)
    T = 'typedef int T; typedef T *PT; typedef T AT[3]; typedef T (*FT)(T); struct T2 { T x; }; typedef struct T2 ST; T tv; PT pv; AT av; FT fv; ST sv; T hh(T x) { return x + 1; }\n'
    for s in ['E_((T)c);', 'E_((T)-d);', 'E_((T)(d));', 'E_((T) + d);', 'E_((a) + d);', 'E_(T);', 'E_(T + 1);', 'E_(sizeof(T));', 'E_(sizeof(AT));', 'E_(sizeof(PT));', 'E_(sizeof(T*[2]));', 'T x = 3; E_(x);', 'T x = 3, y = 4; E_(x + y);', 'T *x; E_(1);', 'T * a1; E_(1);', 'tv * a; E_(1);', 'tv * a = 3;', 'T; E_(1);', 'T T; E_(1);', 'T x[2]; x[0] = 1; E_(x[0]);', 'T (x) = 3; E_(x);', 'T(x) = 3; E_(x);', 'pv = &av[1]; *pv = 3; E_(av[1]);', 'fv = &hh; E_((*fv)(3));', 'sv.x = 3; E_(sv.x);', 'PT x = &av[0]; E_(x == &av[0]);', 'AT x; x[2] = 3; E_(x[2]);', 'FT x = &hh; E_((*x)(4));', 'ST x; x.x = 3; E_(x.x);', 'unsigned T x = 1u;', 'T unsigned x = 1u;', 'T int x = 1;', 'const T x = 3; E_(x);', 'T const x = 3; E_(x);', 'T T x;', 'T PT x;', 'for (T i = 0; i < 2; i++) E_(i);', 'T = 3;', '(T) = 3;', 'hh(T);', 'E_(hh((T)2));', 'E_(T(2));', 'if (T) ;', 'struct T2 x; x.x = 2; E_(x.x);', 'E_(sizeof(ST));', 'E_(sizeof(struct T2));', 'struct ST x;', 'goto T;', 'E_((PT)&av[0] == &av[0]);', 'E_((FT)&hh == &hh);', 'E_(sizeof(T(*)(T)));', 'E_(sizeof(AT*));', 'E_(sizeof(AT[2]));']: body(s, T)
    N = 'enum { A, B, C = 10, D, E = -3, G };\n'
    for s in ['A', 'B', 'C', 'D', 'E', 'G', 'A + 1', 'B * C', '-D', 'A ? 1 : 2', 'B && C', 'C << B', 'A = 1', '&A', 'A++', 'C - B', 'C & D', '~E', 'a == C', 'a * B', '(char)C', 'sizeof(A)', 'A B', 'C(1)', 'C[0]', 'A.x']: e(s, N)
    for s in ['switch (a) { case A: E_(1); break; case C: E_(2); }', 'switch (a) { case E: E_(1); default: E_(3); }', 'int x = C; E_(x);', 'int x[C]; E_(1);', 'A: E_(1);']: body(s, N)
    o += ['', ' ', '\n', ';', F + ';', F + ' { }', F + ' { ', F + ' } ', F, F + ' { } ' + F + ' { }', '\n' + F + '\n{\n}\n', F + '{}', '/**/' + F + '/**/{/**/}/**/', F + ' { } // end', F + ' { } /* end', F + ' { } /* end */', F + ' { }\\', F + ' { } #', 'void f(int a, unsigned b, long long c, int d, ...) { }', 'int f(int a, unsigned b, long long c, int d) { return 1; }', 'void f() { }', 'void g(int a, unsigned b, long long c, int d) { }',
          'void f(int,unsigned,long long,int){}', 'void f(int a, unsigned int b, long long int c, signed d) { E_(a); }', 'void (f)(int a, unsigned b, long long c, int d) { E_(a); }', 'void f(a, b, c, d) int a; { }', 'void f(int a, unsigned b, long long c, int d) { E_(a); E_(b); E_(c); E_(d); }']
    return o
