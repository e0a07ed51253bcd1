---------------------------- MODULE StaticTrace -----------------------------
(***************************************************************************)
(* Conformance of the compiler's verdicts: Data.progs is a sequence of     *)
(* programs, each [base |-> starts with the declarations Data.base?,       *)
(* p |-> (remaining) declarations, acc |-> accepted?].                     *)
(***************************************************************************)
EXTENDS Static, SequencesExt, Json, IOUtils
VARIABLES i, done
Data == JsonDeserialize(IOEnv.WV_DATA)
Progs == Data.progs
BaseR == Tops(Start, Data.base, 1, Rs(Start, {}, {}))
Judged(x) == IF x.base THEN Finish(Tops(BaseR.E, x.p, 1, BaseR)) ELSE Judge(x.p)
Show(k) ==
  LET r == Judged(Progs[k]) acc == Progs[k].acc IN
  IF r.b = {} /\ r.f = {} THEN (IF acc THEN TRUE ELSE PrintT(ToJson([i |-> k, want |-> "accept", bad |-> <<>>])))
  ELSE IF r.b # {} /\ r.f = {} THEN (IF acc THEN PrintT(ToJson([i |-> k, want |-> "reject", bad |-> SetToSeq(r.b)])) ELSE PrintT(ToJson([i |-> k, rej |-> SetToSeq(r.b)])))
  ELSE PrintT(ToJson([i |-> k, open |-> SetToSeq(r.f)]))
Init == i \in 1..Len(Progs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ Show(i)
=============================================================================
