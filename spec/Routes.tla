------------------------------- MODULE Routes -------------------------------
(* One program, many routes: every observation of a run, whatever route the *)
(* executable was built by, is the behaviour CLang gives the program, and   *)
(* building twice gives the same bytes.  An item is                         *)
(*   [P, runs : <<[f, args, tape, traces : <<[ev, trap]>>]>>,               *)
(*    twice : <<[a, b]>>]                                                   *)
(* where traces are the distinct observations over all routes.              *)
EXTENDS CRun
CheckAll(it, r) ==
  LET s == RunFun(it.P, r.f, r.args, r.tape)
      Bad(t) == LET k == FirstDiff(s.ev, t.ev, 1) IN ~(k > Len(s.ev) /\ k > Len(t.ev) /\ ~t.trap)
  IN IF s.u THEN (IF Len(r.traces) = 1 THEN [why |-> "undefined", t |-> 0] ELSE [why |-> "", t |-> 0])
     ELSE IF \E t \in DOMAIN r.traces : Bad(r.traces[t]) THEN [why |-> "behaviour", t |-> CHOOSE t \in DOMAIN r.traces : Bad(r.traces[t])]
     ELSE [why |-> "", t |-> 0]
RInit == i \in 1..Len(Data) /\ st = 0
RNext == /\ st < Len(Data[i].runs) + 1 /\ st' = st + 1 /\ i' = i
         /\ LET c == IF st' <= Len(Data[i].runs) THEN CheckAll(Data[i], Data[i].runs[st'])
                     ELSE [why |-> IF \A k \in DOMAIN Data[i].twice : Data[i].twice[k].a = Data[i].twice[k].b THEN "" ELSE "differs", t |-> 0]
            IN IF c.why = "" THEN TRUE ELSE PrintT(ToJson([i |-> i, run |-> st', why |-> c.why, t |-> c.t]))
=============================================================================
