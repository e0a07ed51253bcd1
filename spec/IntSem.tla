------------------------------- MODULE IntSem -------------------------------
(***************************************************************************)
(* Integer types, conversions and arithmetic of the C subset (ILP32).      *)
(* A value is a little-endian sequence of 1, 2, 4 or 8 bytes (TLC's own    *)
(* integers are 32-bit), interpreted through the type it is paired with.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Bitwise, TLC

IntTypes == {"bool","char","uchar","short","ushort","int","uint","long","ulong","llong","ullong","enum"}
Signed(t)  == t \in {"char","short","int","long","llong","enum"}
Width(t)   == CASE t \in {"bool","char","uchar"} -> 1
                [] t \in {"short","ushort"} -> 2
                [] t \in {"int","uint","long","ulong","enum"} -> 4
                [] OTHER -> 8
Rank(t) == CASE t \in {"int","uint"} -> 1 [] t \in {"long","ulong"} -> 2 [] t \in {"llong","ullong"} -> 3 [] OTHER -> 0
Unsigned(t) == CASE t = "int" -> "uint" [] t = "long" -> "ulong" [] t = "llong" -> "ullong" [] OTHER -> t

Promote(t) == IF Rank(t) = 0 THEN "int" ELSE t

(* The usual arithmetic conversions (C11 6.3.1.8).                         *)
CommonC(t1, t2) ==
  LET a == Promote(t1)  b == Promote(t2) IN
  IF a = b THEN a
  ELSE IF Signed(a) = Signed(b) THEN (IF Rank(a) > Rank(b) THEN a ELSE b)
  ELSE LET s == IF Signed(a) THEN a ELSE b
           u == IF Signed(a) THEN b ELSE a IN
       IF Rank(u) >= Rank(s) THEN u
       ELSE IF Width(s) > Width(u) THEN s
       ELSE Unsigned(s)
(* WCPL pairs unsigned int and long to long although both have 32 bits:    *)
(* a recorded finding (see KNOWN_FINDINGS); everything else follows C.     *)
Common(t1, t2) == IF {Promote(t1), Promote(t2)} = {"uint", "long"} THEN "long" ELSE CommonC(t1, t2)

------------------------------------------------------------------------------
Zero(n) == CASE n = 1 -> <<0>> [] n = 2 -> <<0,0>> [] n = 4 -> <<0,0,0,0>> [] OTHER -> <<0,0,0,0,0,0,0,0>>
FF(n)   == CASE n = 1 -> <<255>> [] n = 2 -> <<255,255>> [] n = 4 -> <<255,255,255,255>>
             [] OTHER -> <<255,255,255,255,255,255,255,255>>
One(n)  == [Zero(n) EXCEPT ![1] = 1]
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
TopBit(b) == b[Len(b)] >= 128

RECURSIVE AddR(_,_,_,_,_)
AddR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + c IN AddR(a, b, i+1, s \div 256, Append(acc, s % 256))
AddB(a, b) == AddR(a, b, 1, 0, <<>>)
RECURSIVE NotRec(_,_,_)
NotRec(a, i, acc) == IF i > Len(a) THEN acc ELSE NotRec(a, i+1, Append(acc, 255 - a[i]))
NotB(a) == NotRec(a, 1, <<>>)
SubB(a, b) == AddR(a, NotB(b), 1, 1, <<>>)
NegB(a) == SubB(Zero(Len(a)), a)

RECURSIVE ColSum(_,_,_,_)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k+1-i] + ColSum(a, b, k, i+1)
RECURSIVE MulR(_,_,_,_,_)
MulR(a, b, k, c, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET s == ColSum(a, b, k, 1) + c IN MulR(a, b, k+1, s \div 256, Append(acc, s % 256))
MulB(a, b) == MulR(a, b, 1, 0, <<>>)

RECURSIVE LtR(_,_,_)
LtR(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtR(a, b, i-1)
LtU(a, b) == LtR(a, b, Len(a))
LtS(a, b) == IF TopBit(a) # TopBit(b) THEN TopBit(a) ELSE LtU(a, b)

RECURSIVE BitR(_,_,_,_,_)
BitR(op, a, b, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE BitR(op, a, b, i+1, Append(acc, CASE op = "&" -> a[i] & b[i] [] op = "|" -> a[i] | b[i] [] OTHER -> a[i] ^^ b[i]))
BitB(op, a, b) == BitR(op, a, b, 1, <<>>)

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] OTHER -> 256
RECURSIVE ShlR(_,_,_,_,_)
ShlR(a, s, r, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET hi == IF i - s >= 1 THEN (a[i-s] * Pow2(r)) % 256 ELSE 0
           lo == IF i - s - 1 >= 1 THEN (a[i-s-1] * Pow2(r)) \div 256 ELSE 0
       IN ShlR(a, s, r, i+1, Append(acc, hi + lo))
ShlB(a, k) == ShlR(a, k \div 8, k % 8, 1, <<>>)
RECURSIVE ShrR(_,_,_,_,_,_)
ShrR(a, s, r, f, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET x == IF i + s <= Len(a) THEN a[i+s] ELSE f
           y == IF i + s + 1 <= Len(a) THEN a[i+s+1] ELSE f
       IN ShrR(a, s, r, f, i+1, Append(acc, (x \div Pow2(r)) + ((y * Pow2(8-r)) % 256)))
ShrB(a, k, fill) == IF k % 8 = 0 THEN ShrR(a, k \div 8, 0, fill, 1, <<>>) ELSE ShrR(a, k \div 8, k % 8, fill, 1, <<>>)

(* Unsigned division: restoring, bit by bit; native when both fit 31 bits. *)
Small(b) == /\ \A i \in 5..Len(b) : b[i] = 0
            /\ (Len(b) < 4 \/ b[4] < 128)
RECURSIVE NatR(_,_)
NatR(b, i) == IF i > Len(b) \/ i > 4 THEN 0 ELSE b[i] + 256 * NatR(b, i+1)
Nat31(b) == NatR(b, 1)
RECURSIVE FromNatR(_,_,_)
FromNatR(x, n, acc) == IF n = 0 THEN acc ELSE FromNatR(x \div 256, n-1, Append(acc, x % 256))
FromNat(x, n) == FromNatR(x, n, <<>>)
BitAt(a, k) == (a[k \div 8 + 1] \div Pow2(k % 8)) % 2
RECURSIVE DivR(_,_,_,_,_)
DivR(a, b, k, q, r) ==       \* bits k..0 of a still to be brought down
  IF k < 0 THEN <<q, r>>
  ELSE LET ov == TopBit(r)
           r2 == AddR(r, r, 1, BitAt(a, k), <<>>)
           ge == ov \/ ~LtU(r2, b)
       IN DivR(a, b, k-1, AddR(q, q, 1, IF ge THEN 1 ELSE 0, <<>>), IF ge THEN SubB(r2, b) ELSE r2)
DivU(a, b) == IF Small(a) /\ Small(b)
              THEN <<FromNat(Nat31(a) \div Nat31(b), Len(a)), FromNat(Nat31(a) % Nat31(b), Len(a))>>
              ELSE IF LtU(a, b) THEN <<Zero(Len(a)), a>>
              ELSE DivR(a, b, 8 * Len(a) - 1, Zero(Len(a)), Zero(Len(a)))
AbsB(a) == IF TopBit(a) THEN NegB(a) ELSE a
DivS(a, b) == LET d == DivU(AbsB(a), AbsB(b)) IN       \* truncates toward zero
  << IF TopBit(a) # TopBit(b) THEN NegB(d[1]) ELSE d[1], IF TopBit(a) THEN NegB(d[2]) ELSE d[2] >>

------------------------------------------------------------------------------
(* Values: [t |-> type, b |-> bytes]                                       *)
RECURSIVE Ext(_,_,_)
Ext(b, n, f) == IF Len(b) >= n THEN b ELSE Ext(Append(b, f), n, f)
Resize(b, n, sgn) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE Ext(b, n, IF sgn /\ TopBit(b) THEN 255 ELSE 0)
Conv(v, t) == IF v.t = t THEN v
              ELSE IF t = "bool" THEN [t |-> t, b |-> IF IsZero(v.b) THEN <<0>> ELSE <<1>>]
              ELSE [t |-> t, b |-> Resize(v.b, Width(t), Signed(v.t))]
IntV(n) == [t |-> "int", b |-> IF n THEN <<1,0,0,0>> ELSE <<0,0,0,0>>]   \* a truth value
Undef == [t |-> "undef", b |-> <<>>]
IsUndef(v) == v.t = "undef"

IsShift(op) == op \in {"<<", ">>"}
IsCmp(op) == op \in {"<", ">", "<=", ">=", "==", "!="}
BinType(op, t1, t2) == IF IsCmp(op) THEN "int" ELSE IF IsShift(op) THEN Promote(t1) ELSE Common(t1, t2)

Arith(op, t, a, b) ==   \* a, b: bytes already converted to t
  CASE op = "+" -> AddB(a, b)
    [] op = "-" -> SubB(a, b)
    [] op = "*" -> MulB(a, b)
    [] op = "/" -> (IF Signed(t) THEN DivS(a, b) ELSE DivU(a, b))[1]
    [] op = "%" -> (IF Signed(t) THEN DivS(a, b) ELSE DivU(a, b))[2]
    [] op \in {"&", "|", "^"} -> BitB(op, a, b)
Lt(t, a, b) == IF Signed(t) THEN LtS(a, b) ELSE LtU(a, b)
(* C leaves the result undefined: division by zero, the unrepresentable    *)
(* quotient, and shift counts outside the width.                           *)
DivBad(t, a, b) == IsZero(b) \/ (Signed(t) /\ b = FF(Len(b)) /\ TopBit(a) /\ a = NegB(a))
ShiftBad(t, c) == TopBit(c) \/ ~Small(c) \/ Nat31(c) >= 8 * Width(t)
Bin(op, v, w) ==
  IF IsUndef(v) \/ IsUndef(w) THEN Undef
  ELSE IF IsShift(op) THEN
    LET t == Promote(v.t) a == Conv(v, t).b c == Conv(w, Promote(w.t)).b IN
    IF ShiftBad(t, c) /\ (~Small(c) \/ Nat31(c) >= 8 * Width(t)) THEN Undef
    ELSE LET k == Nat31(c) IN
      [t |-> t, b |-> IF op = "<<" THEN ShlB(a, k)
                      ELSE ShrB(a, k, IF Signed(t) /\ TopBit(a) THEN 255 ELSE 0)]
  ELSE LET t == Common(v.t, w.t) a == Conv(v, t).b b == Conv(w, t).b IN
    CASE op = "<" -> IntV(Lt(t, a, b))
      [] op = ">" -> IntV(Lt(t, b, a))
      [] op = "<=" -> IntV(~Lt(t, b, a))
      [] op = ">=" -> IntV(~Lt(t, a, b))
      [] op = "==" -> IntV(a = b)
      [] op = "!=" -> IntV(a # b)
      [] OTHER -> IF op \in {"/", "%"} /\ DivBad(t, a, b) THEN Undef ELSE [t |-> t, b |-> Arith(op, t, a, b)]
UnType(op, t) == IF op = "!" THEN "int" ELSE Promote(t)
Un(op, v) ==
  IF IsUndef(v) THEN v
  ELSE LET p == Conv(v, Promote(v.t)) IN
    CASE op = "+" -> p
      [] op = "-" -> [p EXCEPT !.b = NegB(p.b)]
      [] op = "~" -> [p EXCEPT !.b = NotB(p.b)]
      [] op = "!" -> IntV(IsZero(v.b))
Truth(v) == ~IsZero(v.b)
(* The canonical 8-byte image a program prints: (unsigned long long)v.     *)
Image(v) == Resize(v.b, 8, Signed(v.t))
=============================================================================
