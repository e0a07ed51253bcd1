------------------------------- MODULE Macros -------------------------------
(***************************************************************************)
(* Macros over syntax trees.  P.macros maps a macro to                     *)
(*   [ps |-> parameters, va |-> variadic, st |-> statement, body |-> tree]. *)
(* Tree nodes: "mac" (use: n, args), "etc" (the variable arguments, in     *)
(* argument lists), "etcn" (their number), "genn" (selection on their      *)
(* number).  A use means the body with every parameter replaced by the     *)
(* whole argument, in which further uses are then expanded; a statement    *)
(* macro is the statement do body while (0).                               *)
(***************************************************************************)
EXTENDS CLang
One1(k) ==       \* the fields of a node that hold one subtree
  CASE k \in {"idx"} -> {"a", "i"}
    [] k \in {"deref", "mem", "arrow", "addr", "un", "cast", "inc", "emit", "pr", "dump", "countof", "callp"} -> {"a"}
    [] k \in {"bin", "land", "lor", "comma", "asn"} -> {"l", "r"}
    [] k = "cond" -> {"c", "a", "b"}
    [] k \in {"expr", "return", "decl", "gen"} -> {"e"}
    [] k = "if" -> {"c", "a", "b"}
    [] k \in {"while", "do"} -> {"c", "b"}
    [] k = "for" -> {"c", "step", "b"}
    [] k = "switch" -> {"e"}
    [] OTHER -> {}
Many1(k) ==      \* ... a sequence of subtrees
  CASE k \in {"call", "callp", "mac"} -> {"args"}
    [] k \in {"block", "switch"} -> {"b"}
    [] k = "for" -> {"init"}
    [] OTHER -> {}
IntLitT(n) == [k |-> "lit", t |-> <<"int">>, b |-> FromNat(n, 4)]
RECURSIVE Subst(_,_,_,_), SubstSeq(_,_,_,_,_), Pick(_,_,_)
Pick(cs, n, i) == IF cs[i].n = n \/ cs[i].n = -1 THEN cs[i].e ELSE Pick(cs, n, i+1)
(* m: parameters -> trees; v: is "..." bound here, and to the trees x      *)
SubstSeq(q, m, v, x, i) ==
  IF i > Len(q) THEN <<>>
  ELSE (IF v /\ q[i].k = "etc" THEN x ELSE <<Subst(q[i], m, v, x)>>) \o SubstSeq(q, m, v, x, i+1)
Subst(t, m, v, x) ==
  CASE t.k = "var" /\ t.n \in DOMAIN m -> m[t.n]
    [] t.k = "etcn" /\ v -> IntLitT(Len(x))
    [] t.k = "genn" /\ v -> Subst(Pick(t.cs, Len(x), 1), m, v, x)
    [] OTHER ->
         [f \in DOMAIN t |->
            IF f \in One1(t.k) THEN Subst(t[f], m, v, x)
            ELSE IF f \in Many1(t.k) THEN SubstSeq(t[f], m, v, x, 1)
            ELSE IF f = "cs" THEN [j \in DOMAIN t.cs |-> [t.cs[j] EXCEPT !.e = Subst(@, m, v, x)]]
            ELSE t[f]]
RECURSIVE Expand(_,_), ExpandSeq(_,_,_), ParamIx(_,_,_)
ParamIx(ps, n, i) == IF ps[i] = n THEN i ELSE ParamIx(ps, n, i+1)
UseBody(d, args) ==
  LET np == Len(d.ps)
      m == [p \in {d.ps[i] : i \in 1..np} |-> args[ParamIx(d.ps, p, 1)]]
      b == Subst(d.body, m, d.va, IF d.va THEN SubSeq(args, np + 1, Len(args)) ELSE <<>>)
  IN IF d.st THEN [k |-> "do", b |-> b, c |-> IntLitT(0)] ELSE b
ExpandSeq(M, q, i) == IF i > Len(q) THEN <<>> ELSE <<Expand(M, q[i])>> \o ExpandSeq(M, q, i+1)
IsStmt(t) == t.k \in {"block", "do", "while", "for", "if", "switch", "expr"}
Expand(M, t) ==
  IF t.k = "mac" THEN Expand(M, UseBody(M[t.n], t.args))
  ELSE LET r == [f \in DOMAIN t |->
                  IF f \in One1(t.k) THEN Expand(M, t[f])
                  ELSE IF f \in Many1(t.k) THEN ExpandSeq(M, t[f], 1)
                  ELSE IF f = "cs" THEN [j \in DOMAIN t.cs |-> [t.cs[j] EXCEPT !.e = Expand(M, @)]]
                  ELSE t[f]]
       IN IF t.k = "expr" /\ IsStmt(r.e) THEN r.e ELSE r
(* The program without macros.                                             *)
ExpandProgram(P) ==
  [P EXCEPT !.funs = [n \in DOMAIN P.funs |-> [P.funs[n] EXCEPT !.body = ExpandSeq(P.macros, @, 1)]]]
=============================================================================
