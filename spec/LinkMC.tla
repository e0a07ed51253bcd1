------------------------------- MODULE LinkMC -------------------------------
(* The worklist linker as a state machine, over every small module graph:  *)
(* a seed, then one (module, id) at a time is moved to the output and its   *)
(* references are appended; it stops at the first that cannot be resolved. *)
(* Checked: it reports failure exactly when Problem does, the output is    *)
(* exactly the reachable set, each definition once, in any reference order. *)
EXTENDS Link, FiniteSetsExt
CONSTANTS Mods, Ids, MaxEdges, MaxMissing
VARIABLES inst, work, out, pc
vars == <<inst, work, out, pc>>
Node == Mods \X Ids
AsMod(n, present, edges, broken) ==
  LET f(id) == [id |-> id, kind |-> "func", tag |-> 0, val |-> <<0>>,
                refs |-> LET T == {t \in Node : <<<<n, id>>, t>> \in edges}
                             Q == CHOOSE s \in [1..Cardinality(T) -> T] : \A a, b \in 1..Cardinality(T) : a # b => s[a] # s[b]
                         IN [k \in 1..Cardinality(T) |-> [m |-> Q[k][1], id |-> Q[k][2], kind |-> "func", how |-> "call", k |-> 0, m2 |-> "", id2 |-> ""]]]
      D == {id \in Ids : <<n, id>> \notin broken}
      P == CHOOSE s \in [1..Cardinality(D) -> D] : \A a, b \in 1..Cardinality(D) : a # b => s[a] # s[b]
      M == {t[1] : t \in {u \in Node : \E id \in D : <<<<n, id>>, u>> \in edges}}
      I == CHOOSE s \in [1..Cardinality(M) -> M] : \A a, b \in 1..Cardinality(M) : a # b => s[a] # s[b]
  IN [n |-> n, main |-> "main" \in D, imp |-> I, defs |-> [k \in 1..Cardinality(D) |-> f(P[k])]]
UpTo(n, X) == UNION {kSubset(k, X) : k \in 0..n}
Init == /\ \E g \in UNION {[1..k -> Mods] : k \in 1..Cardinality(Mods)}, e \in UpTo(MaxEdges, Node \X Node), b \in UpTo(MaxMissing, Node) :
             inst = [given |-> [k \in DOMAIN g |-> AsMod(g[k], TRUE, e, b)], lib |-> <<>>]
        /\ pc = "start" /\ work = <<>> /\ out = <<>>
Start == /\ pc = "start"
         /\ IF Dup(inst.given) \/ Cardinality(Mains(inst.given)) # 1 \/ Lacking(Range(inst.given)) # {}
            THEN pc' = "failed" /\ UNCHANGED work
            ELSE pc' = "run" /\ work' = <<Entry(inst.given)>>
         /\ UNCHANGED <<inst, out>>
S == Range(inst.given)
Step == /\ pc = "run" /\ Len(out) < Len(work)
        /\ LET t == work[Len(out) + 1] IN
           IF ~Resolved(S, t) THEN pc' = "failed" /\ UNCHANGED <<work, out>>
           ELSE LET new == RefsOf(S, t) \ Range(work) IN
                /\ \E s \in [1..Cardinality(new) -> new] : /\ \A a, b \in 1..Cardinality(new) : a # b => s[a] # s[b]
                                                           /\ work' = work \o s
                /\ out' = Append(out, t) /\ pc' = pc
        /\ UNCHANGED inst
Stop == /\ pc = "run" /\ Len(out) = Len(work) /\ pc' = "linked" /\ UNCHANGED <<inst, work, out>>
Next == Start \/ Step \/ Stop
Verdict == /\ pc = "failed" => Problem(inst.given, inst.lib) # ""
           /\ pc = "linked" => Problem(inst.given, inst.lib) = ""
Retained == pc = "linked" => /\ Range(out) = Reach(S, {Entry(inst.given)})
                             /\ \A a, b \in DOMAIN out : a # b => out[a] # out[b]
OnlyReachable == pc # "start" /\ out # <<>> => Range(out) \subseteq Reach(S, {Entry(inst.given)})
=============================================================================
