------------------------------ MODULE Startup -------------------------------
(* What a program finds at its start: the argument list, and the environment *)
(* as seen through getenv.                                                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
RECURSIVE Sum(_,_)
Sum(s, k) == IF k > Len(s) THEN 0 ELSE Len(s[k]) + 1 + Sum(s, k + 1)
\* room needed in the argument area: the strings, then the aligned table of pointers
Need(args) == LET b == Sum(args, 1) IN ((b + 15) \div 16) * 16 + 4 * (Len(args) + 1)
Given(c) == c.got = c.argv /\ ~c.told
Refused(c) == c.got = <<<<>>>> /\ c.told
\* value of the first entry NAME=value
IsPrefix(p, s) == Len(p) <= Len(s) /\ \A k \in 1..Len(p) : s[k] = p[k]
Lookup(env, name) == LET hit == {k \in 1..Len(env) : IsPrefix(name \o <<61>>, env[k])} IN
  IF hit = {} THEN <<-1>> ELSE LET k == CHOOSE k \in hit : \A j \in hit : k <= j IN SubSeq(env[k], Len(name) + 2, Len(env[k]))
Verdict(c) ==
  IF c.how # "exit" THEN [ok |-> FALSE, exp |-> "normal exit"]
  ELSE IF c.f = "limit" THEN [ok |-> c.taken <= c.n /\ (c.n <= 32 => c.taken = c.n) /\ c.taken >= (IF c.n < 32 THEN c.n ELSE 32) /\ c.got = [k \in 1..c.taken |-> k], exp |-> "all taken handlers run"]
  ELSE IF c.f = "env" THEN LET e == [k \in 1..Len(c.names) |-> Lookup(c.env, c.names[k])] IN [ok |-> c.got = e /\ ~c.told, exp |-> e]
  ELSE IF c.argv = <<>> THEN [ok |-> Refused(c), exp |-> "message and one empty argument"]   \* a host that gives no program name
  ELSE IF c.area < 0 \/ Need(c.argv) <= c.area THEN [ok |-> Given(c), exp |-> c.argv]
  ELSE IF Need(c.argv) <= c.area + 15 THEN [ok |-> Given(c) \/ Refused(c), exp |-> c.argv]
  ELSE [ok |-> Refused(c), exp |-> "message and one empty argument"]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
