------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* The values denoted by the spellings of literals (C11 6.4.4, 6.4.5).     *)
(* A spelling is a sequence of character codes (bytes of the source file). *)
(***************************************************************************)
EXTENDS IntSem
IsDec(c) == c >= 48 /\ c <= 57
IsOct(c) == c >= 48 /\ c <= 55
IsHex(c) == IsDec(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
DigVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsU(c) == c \in {85, 117}
IsL(c) == c \in {76, 108}

(* Digits are accumulated in nine bytes: overflow of the widest type shows *)
(* in the ninth (which saturates).                                         *)
RECURSIVE MulAddR(_,_,_,_,_)
MulAddR(b, k, c, i, acc) ==
  IF i > Len(b) THEN IF c > 0 THEN [acc EXCEPT ![Len(acc)] = 255] ELSE acc
  ELSE LET s == b[i] * k + c IN MulAddR(b, k, s \div 256, i+1, Append(acc, s % 256))
RECURSIVE Digits(_,_,_,_)
Digits(s, i, base, acc) ==      \* <<index after the digits, value>>
  IF i > Len(s) \/ ~(IF base = 16 THEN IsHex(s[i]) ELSE IsDec(s[i])) THEN <<i, acc>>
  ELSE Digits(s, i+1, base, MulAddR(acc, base, DigVal(s[i]), 1, <<>>))
Zero9 == <<0,0,0,0,0,0,0,0,0>>
Suffix(s, i) ==
  LET n == Len(s) - i + 1  t == SubSeq(s, i, Len(s)) IN
  CASE n = 0 -> "int"
    [] n = 1 /\ IsU(t[1]) -> "uint"
    [] n = 1 /\ IsL(t[1]) -> "long"
    [] n = 2 /\ IsL(t[1]) /\ t[2] = t[1] -> "llong"
    [] n = 2 /\ ((IsU(t[1]) /\ IsL(t[2])) \/ (IsL(t[1]) /\ IsU(t[2]))) -> "ulong"
    [] n = 3 /\ ((IsU(t[1]) /\ IsL(t[2]) /\ t[3] = t[2]) \/ (IsL(t[1]) /\ t[2] = t[1] /\ IsU(t[3]))) -> "ullong"
    [] OTHER -> "none"
(* The dialect gives a literal the type its suffix names and refuses it    *)
(* when the value does not fit (C would go on to wider types).             *)
FitsB(b, t) == \A k \in 1..Len(b) :
  b[k] = 0 \/ k < Width(t) \/ (k = Width(t) /\ (~Signed(t) \/ b[k] < 128))
IntLit(s) ==
  LET hex == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {88, 120}
      base == IF hex THEN 16 ELSE IF s[1] = 48 THEN 8 ELSE 10
      d == Digits(s, IF hex THEN 3 ELSE 1, base, Zero9)
      t == Suffix(s, d[1])
  IN IF t = "none" \/ ~FitsB(d[2], t) THEN Undef
     ELSE [t |-> t, b |-> SubSeq(d[2], 1, Width(t))]

(* Escape sequences: <<index after, value, by number?>>                    *)
Esc1(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
             [] c = 118 -> 11 [] OTHER -> c
RECURSIVE HexRun(_,_,_,_)
HexRun(s, i, acc, left) == IF left = 0 \/ i > Len(s) \/ ~IsHex(s[i]) THEN <<i, acc>>
                           ELSE HexRun(s, i+1, 16 * acc + DigVal(s[i]), left - 1)
RECURSIVE OctRun(_,_,_,_)
OctRun(s, i, acc, left) == IF left = 0 \/ i > Len(s) \/ ~IsOct(s[i]) THEN <<i, acc>>
                           ELSE OctRun(s, i+1, 8 * acc + DigVal(s[i]), left - 1)
Esc(s, i) ==      \* s[i] follows the backslash
  IF s[i] = 120 THEN LET r == HexRun(s, i+1, 0, 7) IN <<r[1], r[2], TRUE>>
  ELSE IF s[i] = 117 THEN LET r == HexRun(s, i+1, 0, 4) IN <<r[1], r[2], FALSE>>
  ELSE IF IsOct(s[i]) THEN LET r == OctRun(s, i, 0, 3) IN <<r[1], r[2], TRUE>>
  ELSE <<i+1, Esc1(s[i]), FALSE>>
(* One source character: UTF-8 sequences are decoded.                      *)
U8Len(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
RECURSIVE U8Val(_,_,_,_)
U8Val(s, i, n, acc) == IF n = 0 THEN acc ELSE U8Val(s, i+1, n-1, (acc * 64) + (s[i] % 64))
SrcChar(s, i) ==
  IF s[i] = 92 THEN Esc(s, i+1)
  ELSE LET n == U8Len(s[i]) IN
    <<i + n, IF n = 1 THEN s[i] ELSE U8Val(s, i+1, n-1, s[i] % (IF n = 2 THEN 32 ELSE IF n = 3 THEN 16 ELSE 8)), FALSE>>
(* 'x' is an int holding the value of a (signed) char; L'x' a long.        *)
CharLit(s) == LET r == SrcChar(s, 1) v == r[2] IN
  IF r[1] # Len(s) + 1 \/ v > 255 THEN Undef
  ELSE [t |-> "int", b |-> Resize(<<v>>, 4, TRUE)]
WideCharLit(s) == LET r == SrcChar(s, 1) IN
  IF r[1] # Len(s) + 1 THEN Undef ELSE [t |-> "long", b |-> FromNat(r[2], 4)]
(* Strings: numeric escapes denote bytes, everything else characters that  *)
(* are stored in UTF-8; adjacent literals are joined by the caller.        *)
U8(v) == IF v < 128 THEN <<v>>
         ELSE IF v < 2048 THEN <<192 + (v \div 64), 128 + (v % 64)>>
         ELSE IF v < 65536 THEN <<224 + (v \div 4096), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
         ELSE <<240 + (v \div 262144), 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
RECURSIVE StrR(_,_,_), WStrR(_,_,_)
StrR(s, i, acc) == IF i > Len(s) THEN acc
                   ELSE LET r == SrcChar(s, i) IN StrR(s, r[1], acc \o (IF r[3] THEN <<r[2] % 256>> ELSE U8(r[2])))
StrLit(s) == StrR(s, 1, <<>>)                       \* without the terminating zero
WStrR(s, i, acc) == IF i > Len(s) THEN acc ELSE LET r == SrcChar(s, i) IN WStrR(s, r[1], acc \o FromNat(r[2], 4))
WStrLit(s) == WStrR(s, 1, <<>>)
=============================================================================
