------------------------------- MODULE Build --------------------------------
(* The routes from sources to an executable: any subset of the modules is   *)
(* first compiled to objects, each at its own optimisation level; the link  *)
(* takes sources and objects in any order, at its own level, and writes a   *)
(* binary or a textual executable.  TLC enumerates the routes; the driver   *)
(* performs them.  Whatever the route, the program's behaviour is the one   *)
(* CLang gives it (Routes).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Levels
VARIABLES form, exe
Src == [obj |-> FALSE, lvl |-> 0]
Init == form = [m \in 1..N |-> Src] /\ exe = <<>>
Compile(m, l) == exe = <<>> /\ form[m] = Src /\ form' = [form EXCEPT ![m] = [obj |-> TRUE, lvl |-> l]] /\ exe' = exe
Orders == {o \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => o[a] # o[b]}
Link(o, l, k) == exe = <<>> /\ exe' = <<o, l, k>> /\ form' = form
                 /\ PrintT(ToJson([form |-> form, order |-> o, lvl |-> l, kind |-> k]))
Next == (\E m \in 1..N, l \in Levels : Compile(m, l)) \/ (\E o \in Orders, l \in Levels, k \in {"wasm", "wat"} : Link(o, l, k))
=============================================================================
