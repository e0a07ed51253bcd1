------------------------------ MODULE Strings ------------------------------
(* The string and memory functions as transitions of a byte memory.         *)
(* A case is one call made on a memory m (a sequence of bytes; address x is *)
(* m[x+1]): arguments a, returned values r, memory n afterwards, t if the   *)
(* call trapped (it touched memory outside the arena, which ends at the end *)
(* of the address space).  Pointers are addresses, the null pointer is -1.  *)
(* Effect(f, a, m) is the set of facts the definition gives: the new memory *)
(* and the admissible results.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
-----------------------------------------------------------------------------
Least(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x <= y
Greatest(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x >= y
At(m, x) == m[x + 1]
Bytes(m, p, n) == SubSeq(m, p + 1, p + n)
NulAt(m, p) == Least({x \in p..Len(m)-1 : At(m, x) = 0}, Len(m))
StrN(m, p, n) == LET e == IF p + n < Len(m) THEN p + n ELSE Len(m) IN Bytes(m, p, Least({x \in p..e-1 : At(m, x) = 0}, e) - p)
Str(m, p) == Bytes(m, p, NulAt(m, p) - p)
Z(s) == s \o <<0>>
Zeros(n) == [k \in 1..n |-> 0]
Write(m, p, b) == [k \in 1..Len(m) |-> IF k > p /\ k <= p + Len(b) THEN b[k - p] ELSE m[k]]
U8(c) == c % 256
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
LowerS(s) == [k \in 1..Len(s) |-> Lower(s[k])]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* lexicographic comparison of equally terminated byte sequences
Cmp(s, t) ==
  LET l == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      d == Least({k \in 1..l : s[k] # t[k]}, 0)
  IN IF d # 0 THEN Sgn(s[d] - t[d]) ELSE Sgn(Len(s) - Len(t))
In(c, s) == \E k \in 1..Len(s) : s[k] = c
Find(h, b, p) == Least({x \in p..p + Len(h) - Len(b) : SubSeq(h, x - p + 1, x - p + Len(b)) = b}, -1)
Span(s, P(_)) == Least({k \in 0..Len(s)-1 : ~P(s[k+1])}, Len(s))
-----------------------------------------------------------------------------
(* character classes of the C locale; c = -1 is EOF *)
IsDigit(c) == c \in 48..57
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsPrint(c) == c \in 32..126
IsSpace(c) == c = 32 \/ c \in 9..13
Class(f, c) ==
  CASE f = "isupper" -> IsUpper(c) [] f = "islower" -> IsLower(c) [] f = "isdigit" -> IsDigit(c)
    [] f = "isalpha" -> IsAlpha(c) [] f = "isalnum" -> IsAlpha(c) \/ IsDigit(c) [] f = "isprint" -> IsPrint(c)
    [] f = "isgraph" -> c \in 33..126 [] f = "ispunct" -> IsPrint(c) /\ c # 32 /\ ~IsAlpha(c) /\ ~IsDigit(c)
    [] f = "isspace" -> IsSpace(c) [] f = "iscntrl" -> c \in 0..31 \/ c = 127
    [] f = "isxdigit" -> IsDigit(c) \/ c \in 65..70 \/ c \in 97..102 [] f = "isblank" -> c \in {9, 32}
    [] f = "isascii" -> c \in 0..127
Classes == {"isupper", "islower", "isdigit", "isalpha", "isalnum", "isprint", "isgraph", "ispunct", "isspace",
            "iscntrl", "isxdigit", "isblank", "isascii"}
-----------------------------------------------------------------------------
(* strtok: the state is the memory and the saved position (-1: none)        *)
TokStep(m, hold, s, delim) ==
  LET p == IF s >= 0 THEN s ELSE hold IN
  IF p < 0 THEN [m |-> m, hold |-> -1, r |-> -1]
  ELSE LET d == Str(m, delim)
           b == p + Span(Str(m, p), LAMBDA c : In(c, d))
           e == b + Span(Str(m, b), LAMBDA c : ~In(c, d))
       IN IF At(m, b) = 0 THEN [m |-> m, hold |-> -1, r |-> -1]
          ELSE IF At(m, e) = 0 THEN [m |-> m, hold |-> -1, r |-> b]
          ELSE [m |-> Write(m, e, <<0>>), hold |-> e + 1, r |-> b]
\* a: the two strings, two delimiter sets, then a program: digit k = 0..7 of a[5] (base 8): bit 0 chooses
\* the holder/string, bit 1 the delimiters, bit 2 restarts
RECURSIVE Tok(_,_,_,_,_,_)
Tok(m, h, a, k, n, shared) ==
  IF n = 0 THEN [m |-> m, r |-> <<>>]
  ELSE LET w == (k % 2) + 1 d == IF (k \div 2) % 2 = 0 THEN a[3] ELSE a[4]
           start == (k \div 4) % 2 = 1
           hi == IF shared THEN 1 ELSE w
           s == TokStep(m, h[hi], IF start THEN a[w] ELSE -1, d)
           x == Tok(s.m, [h EXCEPT ![hi] = s.hold], a, k \div 8, n - 1, shared)
       IN [m |-> x.m, r |-> <<s.r>> \o x.r]
-----------------------------------------------------------------------------
(* R(m', r): the call returns exactly r; S(m', s): an integer of sign s *)
R(n, r) == [n |-> n, r |-> <<r>>, s |-> FALSE]
S(n, r) == [n |-> n, r |-> <<r>>, s |-> TRUE]
B(n, b) == [n |-> n, b |-> b]
\* a freshly allocated string: the returned values are its bytes
Effect(f, a, m) ==
  CASE f = "memchr" -> R(m, Least({x \in a[1]..a[1]+a[3]-1 : At(m, x) = U8(a[2])}, -1))
    [] f = "memcmp" -> S(m, Cmp(Bytes(m, a[1], a[3]), Bytes(m, a[2], a[3])))
    [] f \in {"memcpy", "memmove"} -> R(Write(m, a[1], Bytes(m, a[2], a[3])), a[1])
    [] f = "memset" -> R(Write(m, a[1], [k \in 1..a[3] |-> U8(a[2])]), a[1])
    [] f = "bzero" -> [n |-> Write(m, a[1], Zeros(a[2])), r |-> <<>>, s |-> FALSE]
    [] f = "memswap" -> [n |-> Write(Write(m, a[1], Bytes(m, a[2], a[3])), a[2], Bytes(m, a[1], a[3])), r |-> <<>>, s |-> FALSE]
    [] f = "memccpy" -> LET x == Least({k \in 1..a[4] : At(m, a[2] + k - 1) = U8(a[3])}, 0)
                            n == IF x = 0 THEN a[4] ELSE x
                        IN R(Write(m, a[1], Bytes(m, a[2], n)), IF x = 0 THEN -1 ELSE a[1] + x)
    [] f = "memmem" -> R(m, Find(Bytes(m, a[1], a[2]), Bytes(m, a[3], a[4]), a[1]))
    [] f = "strlen" -> R(m, NulAt(m, a[1]) - a[1])
    [] f = "strnlen" -> R(m, Len(StrN(m, a[1], a[2])))
    [] f = "strcpy" -> R(Write(m, a[1], Z(Str(m, a[2]))), a[1])
    [] f = "strcat" -> R(Write(m, NulAt(m, a[1]), Z(Str(m, a[2]))), a[1])
    [] f = "strncpy" -> LET s == StrN(m, a[2], a[3]) IN R(Write(m, a[1], s \o Zeros(a[3] - Len(s))), a[1])
    [] f = "strncat" -> R(Write(m, NulAt(m, a[1]), Z(StrN(m, a[2], a[3]))), a[1])
    [] f \in {"strcmp", "strcoll"} -> S(m, Cmp(Str(m, a[1]), Str(m, a[2])))
    [] f = "strncmp" -> S(m, Cmp(StrN(m, a[1], a[3]), StrN(m, a[2], a[3])))
    [] f = "strcasecmp" -> S(m, Cmp(LowerS(Str(m, a[1])), LowerS(Str(m, a[2]))))
    [] f = "strncasecmp" -> S(m, Cmp(LowerS(StrN(m, a[1], a[3])), LowerS(StrN(m, a[2], a[3]))))
    [] f = "strchr" -> R(m, Least({x \in a[1]..NulAt(m, a[1]) : At(m, x) = U8(a[2])}, -1))
    [] f = "strrchr" -> R(m, Greatest({x \in a[1]..NulAt(m, a[1]) : At(m, x) = U8(a[2])}, -1))
    [] f = "strspn" -> R(m, Span(Str(m, a[1]), LAMBDA c : In(c, Str(m, a[2]))))
    [] f = "strcspn" -> R(m, Span(Str(m, a[1]), LAMBDA c : ~In(c, Str(m, a[2]))))
    [] f = "strpbrk" -> LET x == a[1] + Span(Str(m, a[1]), LAMBDA c : ~In(c, Str(m, a[2])))
                        IN R(m, IF At(m, x) = 0 THEN -1 ELSE x)
    [] f = "strstr" -> R(m, Find(Str(m, a[1]), Str(m, a[2]), a[1]))
    [] f = "strdup" -> [n |-> m, r |-> Z(Str(m, a[1])), s |-> FALSE]
    [] f = "strndup" -> [n |-> m, r |-> Z(StrN(m, a[1], a[2])), s |-> FALSE]
    [] f \in {"strtok", "strtok_r"} -> LET x == Tok(m, <<-1, -1>>, a, a[5], a[6], f = "strtok") IN [n |-> x.m, r |-> x.r, s |-> FALSE]
    [] f = "tolower" -> R(m, Lower(a[1]))
    [] f = "toupper" -> R(m, Upper(a[1]))
Verdict(c) ==
  IF c.t THEN [ok |-> FALSE, exp |-> "no trap"]
  ELSE IF c.f \in Classes THEN
    [ok |-> c.n = c.m /\ (c.r[1] # 0) = Class(c.f, c.a[1]), exp |-> Class(c.f, c.a[1])]
  ELSE IF c.f = "strxfrm" THEN    \* with enough room: a string comparing as strcoll does, and its length
    LET s == Z(Str(c.m, c.a[2])) fits == Len(s) <= c.a[3] IN
    [ok |-> c.r = <<Len(s) - 1>> /\ (IF fits THEN LET w == Write(c.m, c.a[1], s) IN
              \A k \in 1..Len(w) : c.n[k] = w[k] \/ (k > c.a[1] + Len(s) /\ k <= c.a[1] + c.a[3])
            ELSE \A k \in 1..Len(c.m) : c.n[k] = c.m[k] \/ (k > c.a[1] /\ k <= c.a[1] + c.a[3])), exp |-> Len(s) - 1]
  ELSE LET e == Effect(c.f, c.a, c.m) IN
    [ok |-> c.n = e.n /\ Len(c.r) = Len(e.r) /\ (IF e.s THEN Sgn(c.r[1]) = e.r[1] ELSE c.r = e.r), exp |-> e]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
