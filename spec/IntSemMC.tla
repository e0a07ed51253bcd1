------------------------------ MODULE IntSemMC ------------------------------
(* Independent check of the byte arithmetic: exhaustively at 8 bits, and    *)
(* on boundary patterns at 16 bits, against TLC's native integers; by       *)
(* algebraic laws at 32 and 64 bits.                                        *)
EXTENDS IntSem
CONSTANT Full
VARIABLE a, b
U(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] + 256 * x[2]
S(x) == LET m == IF Len(x) = 1 THEN 256 ELSE 65536 IN IF TopBit(x) THEN U(x) - m ELSE U(x)
M(x) == IF Len(x) = 1 THEN 256 ELSE 65536
Mod(x, m) == ((x % m) + m) % m
AbsI(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
TDiv(x, y) == Sgn(x) * Sgn(y) * (AbsI(x) \div AbsI(y))
Edge == IF Full THEN {0, 1, 2, 3, 127, 128, 129, 254, 255} ELSE {0, 1, 127, 128, 255}
Wide4 == { <<p, q, q, r>> : p \in {0, 1, 255}, q \in IF Full THEN {0, 255, 85} ELSE {0, 85}, r \in {0, 127, 128, 255} }
Wide8 == { <<p, q, r, r, q, r, q, s>> : p \in IF Full THEN {0, 1, 255} ELSE {1, 254}, q \in IF Full THEN {0, 255} ELSE {0},
           r \in {0, 170}, s \in {0, 128, 255} }
Small8 == IF Full THEN 0..255 ELSE {0,1,2,3,7,85,100,127,128,129,254,255}
Bytes1 == { <<x>> : x \in Small8 }
Bytes2 == { <<x, y>> : x \in Edge, y \in Edge }
Init == a \in { <<x>> : x \in 0..255 } \cup Bytes2 \cup Wide4 \cup Wide8 /\ b = <<>>
Next == /\ b = <<>> /\ a' = a
        /\ b' \in CASE Len(a) = 1 -> Bytes1 [] Len(a) = 2 -> Bytes2 [] Len(a) = 4 -> Wide4 [] OTHER -> Wide8
Narrow ==
  LET m == M(a) IN
  /\ U(AddB(a, b)) = Mod(U(a) + U(b), m) /\ U(SubB(a, b)) = Mod(U(a) - U(b), m)
  /\ (Len(a) = 1 => U(MulB(a, b)) = Mod(U(a) * U(b), m))
  /\ LtU(a, b) = (U(a) < U(b)) /\ LtS(a, b) = (S(a) < S(b))
  /\ U(NotB(a)) = m - 1 - U(a) /\ U(NegB(a)) = Mod(-U(a), m)
  /\ (~IsZero(b)) =>
       /\ LET d == DivR(a, b, 8*Len(a)-1, Zero(Len(a)), Zero(Len(a))) IN
            U(d[1]) = U(a) \div U(b) /\ U(d[2]) = U(a) % U(b) /\ d = DivU(a, b)
       /\ LET d == DivS(a, b) IN U(d[1]) = Mod(TDiv(S(a), S(b)), m)
             /\ U(d[2]) = Mod(S(a) - TDiv(S(a), S(b)) * S(b), m)
  /\ \A k \in 0..(8*Len(a)-1) :
       /\ (k <= 14 => U(ShlB(a, k)) = Mod(U(a) * (2^k), m))
       /\ U(ShrB(a, k, 0)) = U(a) \div (2^k)
       /\ U(ShrB(a, k, IF TopBit(a) THEN 255 ELSE 0)) = Mod(S(a) \div (2^k), m)
Laws ==
  LET n == Len(a) IN
  /\ SubB(AddB(a, b), b) = a /\ AddB(a, b) = AddB(b, a) /\ MulB(a, b) = MulB(b, a)
  /\ AddB(a, NegB(a)) = Zero(n) /\ MulB(a, FF(n)) = NegB(a) /\ NotB(a) = SubB(FF(n), a)
  /\ MulB(a, AddB(b, One(n))) = AddB(MulB(a, b), a)
  /\ (LtU(a, b) => ~LtU(b, a)) /\ (a = b <=> ~LtU(a, b) /\ ~LtU(b, a))
  /\ (LtS(a, b) <=> LtU(AddB(a, [Zero(n) EXCEPT ![n] = 128]), AddB(b, [Zero(n) EXCEPT ![n] = 128])))
  /\ (~IsZero(b)) => LET d == DivU(a, b) IN AddB(MulB(d[1], b), d[2]) = a /\ LtU(d[2], b)
                     /\ (n = 4 \/ LtU(DivU(d[1], b)[1], NotB(Zero(n))))
  /\ (~IsZero(b)) => LET d == DivS(a, b) IN AddB(MulB(d[1], b), d[2]) = a /\ LtU(AbsB(d[2]), AbsB(b))
                     /\ (IsZero(d[2]) \/ TopBit(d[2]) = TopBit(a))
  /\ \A k \in {0, 1, 7, 8, 13, 8*n-9, 8*n-1} :
       LET p == ShlB(One(n), k) IN
       /\ ShlB(a, k) = MulB(a, p) /\ ShrB(a, k, 0) = DivU(a, p)[1]
       /\ ShrB(a, k, 255) = NotB(ShrB(NotB(a), k, 0))
  /\ AddB(BitB("&", a, b), BitB("|", a, b)) = AddB(a, b)
  /\ BitB("^", a, b) = SubB(BitB("|", a, b), BitB("&", a, b))
Inv == IF b = <<>> THEN TRUE ELSE IF Len(a) <= 2 THEN Narrow ELSE Laws
(* conversions: a value preserved whenever representable; symmetric rules  *)
ASSUME \A s \in IntTypes, t \in IntTypes :
  /\ CommonC(s, t) = CommonC(t, s) /\ CommonC(s, s) = Promote(s) /\ Common(s, t) = Common(t, s)
  /\ Rank(CommonC(s, t)) >= 1 /\ Width(CommonC(s, t)) >= Width(s)
  /\ (Promote(s) = s /\ ~Signed(s) /\ Width(s) >= Width(t) => ~Signed(CommonC(s, t)))
=============================================================================
