---------------------------- MODULE DirectivesMC ----------------------------
(* The line machine agrees with the structural reading of conditional      *)
(* sections: a line takes effect iff in every section around it its branch *)
(* is the first whose condition holds.                                     *)
EXTENDS Directives, TLC
CONSTANTS N, Cs
VARIABLES ls
Kinds == {[k |-> "if", c |-> c] : c \in Cs} \cup {[k |-> "elif", c |-> c] : c \in Cs}
         \cup {[k |-> "else"], [k |-> "endif"], [k |-> "mark"]}
(* Structural reading: matching by nesting depth alone.                    *)
RECURSIVE Opener(_,_,_)
(* the line that opens the innermost section around line i (0: none)       *)
Opener(q, i, d) == IF i = 0 THEN 0
  ELSE IF q[i].k = "endif" THEN Opener(q, i-1, d+1)
  ELSE IF q[i].k = "if" THEN (IF d = 0 THEN i ELSE Opener(q, i-1, d-1))
  ELSE Opener(q, i-1, d)
OpenOf(q, i) == Opener(q, i-1, 0)
(* the directives of the section opened at o, up to line i                 *)
Own(q, o, i) == {j \in o..i : j = o \/ (q[j].k \in {"elif", "else"} /\ OpenOf(q, j) = o)}
Holds(l) == l.k = "else" \/ l.c = "t"
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Effect(_,_)
Effect(q, i) ==          \* does line i of q take effect
  LET o == OpenOf(q, i) IN
  IF o = 0 THEN TRUE
  ELSE LET b == MaxOf(Own(q, o, i-1)) IN
       /\ Effect(q, o) /\ Holds(q[b]) /\ \A j \in Own(q, o, i-1) : j < b => ~Holds(q[j])
Run(q) == LinesFrom(Start, [i \in DOMAIN q |-> IF q[i].k = "mark" THEN [k |-> "decl", n |-> i] ELSE q[i]], 1)
Balanced(q) == \A i \in DOMAIN q : q[i].k \in {"elif", "else", "endif"} => OpenOf(q, i) # 0
ElseLast(q) == \A i, j \in DOMAIN q : q[i].k = "else" /\ j > i /\ q[j].k \in {"elif", "else"} => OpenOf(q, i) # OpenOf(q, j)
Init == ls = <<>>
Next == Len(ls) < N /\ \E l \in Kinds : ls' = Append(ls, l)
Agree ==
  LET s == Run(ls) IN
  /\ Balanced(ls) /\ ElseLast(ls) => s.v = "ok" /\ s.gs = {i \in DOMAIN ls : ls[i].k = "mark" /\ Effect(ls, i)}
  /\ ~Balanced(ls) => s.v # "ok"
  /\ s.v = "ok" => (s.st = <<>> <=> \A i \in DOMAIN ls : ls[i].k = "if" =>
        \E j \in DOMAIN ls : ls[j].k = "endif" /\ j > i /\ OpenOf(ls, j) = i)
=============================================================================
