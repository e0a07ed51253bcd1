------------------------------ MODULE Sorting ------------------------------
(* qsort, bsearch, the integer arithmetic functions and the random number   *)
(* generator of <stdlib.h>.  Arrays are byte memories cut into elements.    *)
EXTENDS IntSem, Json, IOUtils
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
-----------------------------------------------------------------------------
Elem(m, p, w, k) == SubSeq(m, p + (k-1) * w + 1, p + k * w)
Elems(m, p, n, w) == [k \in 1..n |-> Elem(m, p, w, k)]
S16(lo, hi) == lo + 256 * (IF hi > 127 THEN hi - 256 ELSE hi)
\* the orders the driver's comparison functions implement
Key(c, e) == CASE c = 0 -> e[1]                                       \* first byte
               [] c = 1 -> - e[1]                                     \* first byte, descending
               [] c = 2 -> e[1] % 4                                   \* many equal elements
               [] c = 3 -> S16(e[Len(e)-1], e[Len(e)])                \* last 16 bits, signed
               [] c = 4 -> 0                                          \* all equal
Count(s, x) == LET RECURSIVE R(_) R(k) == IF k > Len(s) THEN 0 ELSE R(k+1) + (IF s[k] = x THEN 1 ELSE 0) IN R(1)
Permuted(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
-----------------------------------------------------------------------------
(* the 48-bit linear congruential sequence documented for the rand48 family *)
A48 == <<109, 230, 236, 222, 5, 0>>
C48 == <<11, 0, 0, 0, 0, 0>>
Step48(x) == AddB(MulB(x, A48), C48)
Seed48(s) == <<14, 51>> \o s
Out31(x) == LET h == SubSeq(x, 3, 6) IN ShrB(h, 1, 0)
RECURSIVE Rands(_,_)
Rands(x, n) == IF n = 0 THEN <<>> ELSE LET y == Step48(x) IN <<Out31(y) \o <<0,0,0,0>> >> \o Rands(y, n-1)
-----------------------------------------------------------------------------
V(t, b) == [t |-> t, b |-> SubSeq(b, 1, Width(t))]
AbsV(v) == IF TopBit(v.b) THEN Un("-", v) ELSE v
IsAbs(f) == f \in {"abs", "labs", "llabs"}
Ty(f) == CASE f \in {"abs", "div"} -> "int" [] f \in {"labs", "ldiv"} -> "long" [] OTHER -> "llong"
NatOf(b) == Nat31(b)
Verdict(c) ==
  IF c.t THEN [ok |-> FALSE, exp |-> "no trap"]
  ELSE CASE c.f = "qsort" ->           \* a = <<base, n, w, order>>; r = <<comparator misuse>>
      LET a == c.a x == Elems(c.m, a[1], a[2], a[3]) y == Elems(c.n, a[1], a[2], a[3]) IN
      [ok |-> /\ c.r = <<0>> /\ Len(c.n) = Len(c.m)
              /\ \A k \in 1..Len(c.m) : c.n[k] = c.m[k] \/ (k > a[1] /\ k <= a[1] + a[2] * a[3])
              /\ Permuted(x, y)
              /\ \A k \in 1..a[2]-1 : Key(a[4], y[k]) <= Key(a[4], y[k+1]), exp |-> "sorted"]
    [] c.f = "bsearch" ->              \* a = <<base, n, w, order, key>>; r = <<result, misuse>>
      LET a == c.a x == Elems(c.m, a[1], a[2], a[3]) k0 == Key(a[4], Elem(c.m, a[5], a[3], 1))
          hits == {k \in 1..a[2] : Key(a[4], x[k]) = k0} IN
      [ok |-> c.n = c.m /\ Len(c.r) = 2 /\ c.r[2] = 0
              /\ IF hits = {} THEN c.r[1] = -1 ELSE c.r[1] \in {a[1] + (k-1) * a[3] : k \in hits}, exp |-> hits]
    [] c.f = "rand" ->                 \* a = <<seed or default, count>> as bytes
      [ok |-> c.r = Rands(Seed48(SubSeq(c.a[1], 1, 4)), Nat31(c.a[2])), exp |-> Rands(Seed48(SubSeq(c.a[1], 1, 4)), Nat31(c.a[2]))]
    [] IsAbs(c.f) -> LET e == Image(AbsV(V(Ty(c.f), c.a[1]))) IN [ok |-> c.r = <<e>>, exp |-> e]
    [] OTHER ->                        \* div: the quotient truncates, the remainder completes
      LET n == V(Ty(c.f), c.a[1]) d == V(Ty(c.f), c.a[2]) e == <<Image(Bin("/", n, d)), Image(Bin("%", n, d))>> IN
      [ok |-> c.r = e, exp |-> e]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
