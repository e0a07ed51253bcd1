------------------------------ MODULE MacroRun ------------------------------
(* Conformance of recorded runs of programs with macros: as CRun, for the  *)
(* expanded program.                                                       *)
EXTENDS Macros, Json, IOUtils
VARIABLES i, st, prog
Data == JsonDeserialize(IOEnv.WV_DATA)
RECURSIVE FirstDiff(_,_,_)
SameEv(x, y) == x[2] = y[2] /\ x[3] = y[3] /\ x[4] = y[4] /\ (y[1] = 0 \/ x[1] = y[1])
FirstDiff(x, y, k) == IF k > Len(x) \/ k > Len(y) THEN k
                      ELSE IF SameEv(x[k], y[k]) THEN FirstDiff(x, y, k+1) ELSE k
Check1(P, r) ==
  LET s == RunFun(P, r.f, r.args, r.tape) x == s.ev y == r.ev IN
  IF s.u THEN [ok |-> TRUE, skip |-> TRUE]
  ELSE LET k == FirstDiff(x, y, 1) IN
    IF k > Len(x) /\ k > Len(y) /\ ~r.trap THEN [ok |-> TRUE, skip |-> FALSE]
    ELSE [ok |-> FALSE, skip |-> FALSE, at |-> k,
          exp |-> IF k <= Len(x) THEN x[k] ELSE <<>>, obs |-> IF k <= Len(y) THEN y[k] ELSE <<>>]
Report(n, j, c) ==
  IF ~c.ok THEN PrintT(ToJson([i |-> n, reject |-> j, at |-> c.at, exp |-> c.exp, obs |-> c.obs]))
  ELSE IF c.skip THEN PrintT(ToJson([i |-> n, skip |-> j])) ELSE TRUE
Init == i \in 1..Len(Data) /\ st = 0 /\ prog = <<>>
Next == /\ st < Len(Data[i].runs) /\ st' = st + 1 /\ i' = i
        /\ prog' = IF st = 0 THEN <<ExpandProgram(Data[i].P)>> ELSE prog
        /\ Report(i, st', Check1(prog'[1], Data[i].runs[st']))
=============================================================================
