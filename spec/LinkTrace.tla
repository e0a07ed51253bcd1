----------------------------- MODULE LinkTrace ------------------------------
(* Judges recorded runs of the linker against Link.  An item is            *)
(* [given, lib, rc, made, said, ev]: exit status, whether an executable    *)
(* was left, whether anything was reported, the events of its run.         *)
EXTENDS Link, Json, IOUtils
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
Verdict(x) ==
  LET p == Problem(x.given, x.lib) IN
  IF p = "" THEN (IF x.rc # 0 \/ ~x.made THEN "a complete program is not linked"
                  ELSE IF x.ev # Behaviour(x.given, x.lib) THEN "a reference reaches the wrong definition" ELSE "")
  ELSE IF x.rc = 0 THEN "accepted: " \o p
  ELSE IF x.rc < 0 THEN "the linker crashes: " \o p
  ELSE IF x.made THEN "executable left behind: " \o p
  ELSE IF ~x.said THEN "no diagnostic: " \o p ELSE ""
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN
           PrintT(ToJson([i |-> i, v |-> v, p |-> Problem(Data[i].given, Data[i].lib)]))
=============================================================================
