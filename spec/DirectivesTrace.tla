--------------------------- MODULE DirectivesTrace ---------------------------
(* Conformance: every item is a module's lines, whether it was accepted,   *)
(* and what its functions returned.                                        *)
EXTENDS Directives, TLC, Json, IOUtils
VARIABLES i, done
data == JsonDeserialize(IOEnv.WV_DATA)
Judge(x) ==
  LET m == Meaning(x.lines) IN
  IF m.v = "open" THEN "open"
  ELSE IF m.v = "rej" THEN (IF x.acc THEN "accepted" ELSE "ok")
  ELSE IF ~x.acc THEN "rejected"
  ELSE IF x.out # m.out THEN "value" ELSE "ok"
Report(x) == LET j == Judge(x) m == Meaning(x.lines) IN
  IF j = "ok" THEN TRUE ELSE PrintT(ToJson([id |-> x.id, j |-> j, exp |-> m.out]))
Init == i \in 1..Len(data.items) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ Report(data.items[i])
=============================================================================
