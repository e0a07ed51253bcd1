------------------------------ MODULE ByteNum ------------------------------
(* Integers as little-endian byte sequences, digit sequences, and writes    *)
(* into a byte memory (address x is m[x+1]).                                *)
EXTENDS Integers, Sequences, FiniteSets
At(m, x) == m[x + 1]
Rep(c, n) == [j \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Least(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x <= y
Write(m, p, b) == [j \in 1..Len(m) |-> IF j > p /\ j <= p + Len(b) THEN b[j - p] ELSE m[j]]
AllZero(b) == \A j \in 1..Len(b) : b[j] = 0
Negative(b) == b[Len(b)] >= 128
RECURSIVE NegFrom(_,_,_)
NegFrom(b, j, carry) ==
  IF j > Len(b) THEN <<>> ELSE LET x == 255 - b[j] + carry IN <<x % 256>> \o NegFrom(b, j + 1, x \div 256)
Negate(b) == NegFrom(b, 1, 1)
\* quotient and remainder by a small number, from the most significant byte
RECURSIVE DM(_,_,_,_)
DM(b, base, j, r) ==
  IF j = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET x == r * 256 + b[j]
           h == DM(b, base, j - 1, x % base)
       IN [q |-> h.q \o <<x \div base>>, r |-> h.r]
RECURSIVE Digits(_,_)
Digits(b, base) == IF AllZero(b) THEN <<>> ELSE LET d == DM(b, base, Len(b), 0) IN Digits(d.q, base) \o <<d.r>>
\* b * base + d, and the carry out
RECURSIVE MA(_,_,_,_)
MA(b, base, j, carry) ==
  IF j > Len(b) THEN [v |-> <<>>, c |-> carry]
  ELSE LET x == b[j] * base + carry
           h == MA(b, base, j + 1, x \div 256)
       IN [v |-> <<x % 256>> \o h.v, c |-> h.c]
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
\* the number with the digits ds (most significant first) modulo 2^64; ov: it does not fit
RECURSIVE NumFrom(_,_,_,_,_)
NumFrom(ds, base, j, v, ov) ==
  IF j > Len(ds) THEN [v |-> v, ov |-> ov]
  ELSE LET x == MA(v, base, 1, ds[j]) IN NumFrom(ds, base, j + 1, x.v, ov \/ x.c > 0)
Number(ds, base) == NumFrom(ds, base, 1, Zero8, FALSE)
\* does the 8-byte magnitude, negated if neg, fit a signed / unsigned integer of n bytes?
FitsUnsigned(v, n) == \A j \in n + 1..8 : v[j] = 0
FitsSigned(v, neg, n) ==
  /\ FitsUnsigned(v, n)
  /\ v[n] < 128 \/ (neg /\ v[n] = 128 /\ \A j \in 1..n - 1 : v[j] = 0)
DigitChar(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 55 ELSE 87) + d
DigitValue(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..90 -> c - 55 [] c \in 97..122 -> c - 87 [] OTHER -> 99
IsDigit(c) == c \in 48..57
IsSpace(c) == c = 32 \/ c \in 9..13
ToInt(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4])
IntBytes(v, n) ==
  LET u == IF v >= 0 THEN v ELSE v + 2147483647 + 1   \* without the sign bit
      by(j) == CASE j = 1 -> u % 256 [] j = 2 -> (u \div 256) % 256 [] j = 3 -> (u \div 65536) % 256
                 [] j = 4 -> u \div 16777216 + (IF v < 0 THEN 128 ELSE 0) [] OTHER -> IF v < 0 THEN 255 ELSE 0
  IN [j \in 1..n |-> by(j)]
RECURSIVE Pow(_,_)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* bits of the binary floating-point number (n = 8 or 4 bytes) of value (-1)^neg * q * 2^e; q a positive integer < 2^24
RECURSIVE Norm(_,_)
Norm(q, e) == IF q >= 8388608 THEN [q |-> q, e |-> e] ELSE Norm(2 * q, e - 1)     \* q in [2^23, 2^24)
FloatBytes(neg, q, e, n) ==
  IF q = 0 THEN [j \in 1..n |-> IF j = n /\ neg THEN 128 ELSE 0]
  ELSE LET s == Norm(q, e)
           f == s.q - 8388608              \* 23 fraction bits
           x == s.e + 23                   \* exponent
           sb == IF neg THEN 128 ELSE 0
           b8 == x + 1023  b4 == x + 127
       IN IF n = 8 THEN <<0, 0, 0, (f % 8) * 32, (f \div 8) % 256, (f \div 2048) % 256,
                          (f \div 524288) + (b8 % 16) * 16, sb + b8 \div 16>>
          ELSE <<f % 256, (f \div 256) % 256, (f \div 65536) + (b4 % 2) * 128, sb + b4 \div 2>>
=============================================================================
