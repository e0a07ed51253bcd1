----------------------------- MODULE Directives -----------------------------
(***************************************************************************)
(* A module as a sequence of lines: conditional sections, macro            *)
(* definitions and their removal, declarations, uses, other text.          *)
(* Lines: [k |-> "if" | "elif", c |-> "t" | "f" | "x"]  condition true,     *)
(*          false, or not a condition;                                      *)
(*        [k |-> "else"], [k |-> "endif"];                                  *)
(*        [k |-> "def", n, np, v]  macro n with np parameters (-1: none     *)
(*          and no list) standing for v plus its arguments;                 *)
(*        [k |-> "undef", n], [k |-> "decl", n];                            *)
(*        [k |-> "use", n, na, id, a]  function id: the value of n applied  *)
(*          to na arguments a (-1: no list);                                *)
(*        [k |-> "text"]  anything that is no declaration, [k |-> "blank"].  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Builtin == {"__WCPL__", "__DATE__", "__TIME__", "NULL", "true", "false", "__VA_ARGS__"}
NoMacros == [x \in {} |-> 0]
Start == [st |-> <<>>, ms |-> NoMacros, gs |-> {}, out |-> <<>>, v |-> "ok"]
Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Live(s) == s.st = <<>> \/ Top(s.st).live
Bad(s) == [s EXCEPT !.v = IF @ = "ok" THEN "rej" ELSE @]
Free(s) == [s EXCEPT !.v = IF @ = "ok" THEN "open" ELSE @]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, e) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN e ELSE f[y]]
(* A section: outer: the enclosing text is active; taken: a branch has     *)
(* been; live: the present one is; els: after #else.                       *)
Line(s, l) ==
  CASE l.k = "if" ->
         IF ~Live(s) THEN [s EXCEPT !.st = Append(@, [outer |-> FALSE, taken |-> TRUE, live |-> FALSE, els |-> FALSE])]
         ELSE IF l.c = "x" THEN Bad(s)
         ELSE [s EXCEPT !.st = Append(@, [outer |-> TRUE, taken |-> l.c = "t", live |-> l.c = "t", els |-> FALSE])]
    [] l.k \in {"elif", "else"} ->
         IF s.st = <<>> THEN Bad(s)
         ELSE LET f == Top(s.st) u == IF f.els /\ f.outer THEN Free(s) ELSE s IN
              IF ~f.outer THEN s
              ELSE IF f.taken THEN [u EXCEPT !.st = Append(Pop(@), [f EXCEPT !.live = FALSE, !.els = l.k = "else"])]
              ELSE IF l.k = "else" THEN [u EXCEPT !.st = Append(Pop(@), [f EXCEPT !.live = TRUE, !.taken = TRUE, !.els = TRUE])]
              ELSE IF l.c = "x" THEN Bad(u)
              ELSE [u EXCEPT !.st = Append(Pop(@), [f EXCEPT !.live = l.c = "t", !.taken = l.c = "t"])]
    [] l.k = "endif" -> IF s.st = <<>> THEN Bad(s) ELSE [s EXCEPT !.st = Pop(@)]
    [] ~Live(s) \/ l.k = "blank" -> s
    [] l.k = "text" -> Bad(s)
    [] l.k = "def" ->
         IF l.n \in DOMAIN s.ms \/ l.n \in s.gs \/ l.n \in Builtin THEN Bad(s)
         ELSE [s EXCEPT !.ms = With(@, l.n, [np |-> l.np, v |-> l.v])]
    [] l.k = "undef" ->
         IF l.n \in Builtin THEN Bad(s) ELSE IF l.n \notin DOMAIN s.ms THEN Free(s)
         ELSE [s EXCEPT !.ms = Without(@, l.n)]
    [] l.k = "decl" ->
         IF l.n \in DOMAIN s.ms \/ l.n \in s.gs THEN Bad(s) ELSE [s EXCEPT !.gs = @ \cup {l.n}]
    [] l.k = "use" ->
         IF l.n \notin DOMAIN s.ms THEN (IF l.n \in s.gs THEN Free(s) ELSE Bad(s))
         ELSE IF s.ms[l.n].np # l.na THEN Bad(s)
         ELSE [s EXCEPT !.out = Append(@, <<l.id, s.ms[l.n].v + (IF l.na > 0 THEN l.a * l.na ELSE 0)>>)]
RECURSIVE LinesFrom(_,_,_)
LinesFrom(s, ls, i) == IF i > Len(ls) \/ s.v # "ok" THEN s ELSE LinesFrom(Line(s, ls[i]), ls, i+1)
(* The meaning of a module: accepted with the uses' values, or rejected.   *)
Meaning(ls) == LET s == LinesFrom(Start, ls, 1) IN
               IF s.v = "ok" /\ s.st # <<>> THEN [s EXCEPT !.v = "rej"] ELSE s
=============================================================================
