----------------------------- MODULE ConstExpr ------------------------------
(***************************************************************************)
(* Constant expressions: whatever the context that demands the constant -  *)
(* enumerator, static initialiser, array bound, case label, static         *)
(* assertion, plain expression - the value is that of the expression under *)
(* the ordinary evaluation rules.                                          *)
(***************************************************************************)
EXTENDS CLang, Json, IOUtils
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)

(* Enumerators in order of declaration: value of the expression, or one    *)
(* more than the predecessor; constraint: representable as int.            *)
RECURSIVE Enums(_,_,_,_,_)
CE(P, e) == LET r == Eval(P, e, EmptyEnv, StartState(<<>>)) IN IF r.s.u THEN Undef ELSE r.v
FitsInt(v) == LET w == Resize(v.b, 8, Signed(v.t)) IN
              /\ Resize(SubSeq(w, 1, 4), 8, TRUE) = w
              /\ (Signed(v.t) \/ ~TopBit(w))
Enums(Q, l, k, P, prev) ==
  IF k > Len(l) THEN P
  ELSE LET v == IF l[k].has THEN CE(P, l[k].e) ELSE [t |-> "int", b |-> AddB(prev, <<1,0,0,0>>)]
           bad == P.bad \/ IsUndef(v) \/ (l[k].has /\ ~IsUndef(v) /\ ~FitsInt(v)) \/ (~l[k].has /\ prev = <<255,255,255,127>>)
           b == IF IsUndef(v) THEN Zero(4) ELSE Resize(v.b, 4, Signed(v.t))
       IN Enums(Q, l, k+1, [P EXCEPT !.enums = (l[k].n :> b) @@ @, !.bad = bad], b)
Prep(Q) == LET P0 == Prepare(Q) IN
  Enums(Q, Q.enums, 1, [enums |-> EmptyEnv, na |-> FALSE, tags |-> P0.tags, funs |-> P0.funs, order |-> P0.order, genv |-> P0.genv, bad |-> FALSE], <<255,255,255,255>>)

(* One case: the events (or acceptance) its context must produce.          *)
RECURSIVE Hit(_,_,_,_), Bytes(_,_,_,_,_)
Bytes(P, c, k, acc, t) == IF k > Len(c.es) THEN acc
  ELSE LET v == CE(P, c.es[k]) IN IF IsUndef(v) THEN <<-1>> ELSE Bytes(P, c, k+1, acc \o ConvT(v, t).b, t)
Hit(P, ls, x, k) == IF k > Len(ls) THEN 0
  ELSE LET v == CE(P, ls[k]) IN IF IsUndef(v) THEN -1 ELSE IF Conv(v, "int").b = x THEN k ELSE Hit(P, ls, x, k+1)
Positive(v) == ~IsZero(v.b) /\ ~(Signed(v.t) /\ TopBit(v.b))
MaxBound == 1000000
Expect(P, c) ==       \* sequence of events; <<<<-1>>>>: undefined, <<<<-2>>>>: must be rejected, <<<<-3>>>>: must be accepted
  CASE c.k = "body" -> LET v == CE(P, c.e) IN IF IsUndef(v) THEN <<<<-1>>>> ELSE <<EventOf(v)>>
    [] c.k = "init" -> LET b == Bytes(P, c, 1, <<>>, c.t) IN IF b = <<-1>> THEN <<<<-1>>>> ELSE [j \in 1..Len(b) |-> <<8, b[j], 0, 0>>]
    [] c.k = "array" -> LET v == CE(P, c.e) IN
         IF IsUndef(v) THEN <<<<-1>>>>
         ELSE <<Pack(1, Resize(MulB(Resize(v.b, 4, FALSE), FromNat(Width(c.t[1]), 4)), 8, FALSE))>>
    [] c.k = "switch" -> LET h == Hit(P, c.ls, c.x, 1) IN IF h = -1 THEN <<<<-1>>>> ELSE <<<<1, h, 0, 0>>>>
    [] c.k = "assert" -> LET v == CE(P, c.e) IN IF IsUndef(v) THEN <<<<-1>>>> ELSE IF Truth(v) THEN <<<<-3>>>> ELSE <<<<-2>>>>
    [] c.k = "bound" -> LET v == CE(P, c.e) IN
         IF IsUndef(v) THEN <<<<-1>>>> ELSE IF Positive(v) /\ Small(v.b) /\ Nat31(v.b) <= MaxBound THEN <<<<-3>>>>
         ELSE IF Positive(v) /\ Small(v.b) THEN <<<<-1>>>> ELSE <<<<-2>>>>
    [] c.k = "enums" -> IF P.bad THEN <<<<-2>>>> ELSE <<<<-3>>>>
    [] c.k = "lit" -> IF IsUndef(LitV(c.e)) THEN <<<<-2>>>> ELSE <<<<-3>>>>
c0(t) == t = 0
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k][2] = y[k][2] /\ x[k][3] = y[k][3] /\ x[k][4] = y[k][4] /\ (c0(x[k][1]) \/ x[k][1] = y[k][1])
Ok(c, x) ==
  IF Len(x) = 1 /\ Len(x[1]) = 1 THEN
    (IF x[1][1] = -1 THEN TRUE ELSE IF x[1][1] = -2 THEN c.obs = <<<<-2>>>> ELSE c.obs = <<<<-3>>>>)
  ELSE Same(x, c.obs)
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st < Len(Data[i].cases) /\ st' = st + 1 /\ i' = i
        /\ LET P == Prep(Data[i].P) c == Data[i].cases[st'] x == Expect(P, c) IN
           IF x = <<<<-1>>>> THEN PrintT(ToJson([i |-> i, skip |-> st']))
           ELSE IF Ok(c, x) THEN TRUE ELSE PrintT(ToJson([i |-> i, reject |-> st', exp |-> x, obs |-> c.obs]))
=============================================================================
