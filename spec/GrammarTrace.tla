---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Conformance of the compiler with text -> tree -> judgement -> run.      *)
(* Data.items: [x |-> characters, acc |-> accepted?, runs |-> <<[args |->  *)
(* the bytes of the four arguments of f, ev |-> events, trap]>>].          *)
(* A text is the part of a translation unit that defines                   *)
(*    void f(int, unsigned, long long, int)                                *)
(* A text that does not parse, or parses but is ill-formed by Static, must *)
(* be refused; a well-formed one must be accepted, and its runs must be    *)
(* those CLang gives its tree.                                             *)
(***************************************************************************)
EXTENDS Grammar, SequencesExt, Json, IOUtils
S == INSTANCE Static
C == INSTANCE CLang
VARIABLES i, done
Data == JsonDeserialize(IOEnv.WV_DATA)
Items == Data.items

(* What the run of a tree may not depend on.  Effects of an expression:    *)
(* r names read, w names written ("*": memory and everything reachable     *)
(* from elsewhere, "!": the event record), x: unsequenced effects collide. *)
EF(r, w, x) == [r |-> r, w |-> w, x |-> x]
E0 == EF({}, {}, FALSE)
Hit(p, q) == p.w \cap (q.w \cup q.r) # {} \/ q.w \cap p.r # {}
Par(p, q) == EF(p.r \cup q.r, p.w \cup q.w, p.x \/ q.x \/ Hit(p, q))      \* unsequenced
Seq1(p, q) == EF(p.r \cup q.r, p.w \cup q.w, p.x \/ q.x)
RECURSIVE TyOdd(_)
TyOdd(t) == CASE t[1] \in {"en", "float", "double"} -> TRUE [] t[1] \in {"ptr", "arr"} -> TyOdd(t[2])
              [] t[1] = "fn" -> TyOdd(t[2]) \/ \E k \in DOMAIN t[3] : TyOdd(t[3][k]) [] OTHER -> FALSE
RECURSIVE Arith(_)
Arith(t) == t[1] \in S!IntT \/ (t[1] = "arr" /\ Arith(t[2]))
(* X: [sh |-> names of objects visible elsewhere, pure |-> functions without effects] *)
RECURSIVE Eff(_,_), EffL(_,_,_,_), Tgt(_,_), BaseOf(_)
Nm(X, n) == IF n \in X.sh THEN {n, "*"} ELSE {n}
EffL(X, l, k, acc) == IF k > Len(l) THEN acc ELSE EffL(X, l, k+1, Par(acc, Eff(X, l[k])))
BaseOf(e) == CASE e.k = "var" -> e.n [] e.k = "mem" -> BaseOf(e.a) [] e.k = "idx" -> BaseOf(e.a) [] OTHER -> ""
(* what an assignment to e writes, besides the effects of finding the object *)
Tgt(X, e) == IF e.k = "var" THEN Nm(X, e.n) ELSE IF BaseOf(e) # "" THEN {BaseOf(e), "*"} ELSE {"*"}
Inner(X, e) == CASE e.k = "var" -> E0 [] e.k = "mem" -> Eff(X, e.a) [] e.k \in {"arrow", "deref"} -> Eff(X, e.a)
                 [] e.k = "idx" -> Par(Eff(X, e.a), Eff(X, e.i)) [] OTHER -> Eff(X, e)
Eff(X, e) ==
  CASE e.k = "lit" -> E0
    [] e.k \in {"str", "none", "sizeofu"} -> E0
    [] e.k = "var" -> EF(Nm(X, e.n), {}, FALSE)
    [] e.k = "un" -> Eff(X, e.a)
    [] e.k = "cast" -> LET p == Eff(X, e.a) IN [p EXCEPT !.x = @ \/ TyOdd(e.t)]
    [] e.k = "sizeofx" -> EF({}, {}, e.a.k \in {"asn", "inc", "comma", "cond", "str"})
    [] e.k = "addr" -> Inner(X, e.a)
    [] e.k = "deref" -> Seq1(Eff(X, e.a), EF({"*"}, {}, FALSE))
    [] e.k = "arrow" -> Seq1(Eff(X, e.a), EF({"*"}, {}, FALSE))
    [] e.k = "mem" -> Seq1(Eff(X, e.a), EF({"*"}, {}, FALSE))
    [] e.k = "idx" -> Seq1(Par(Eff(X, e.a), Eff(X, e.i)), EF({"*"}, {}, FALSE))
    [] e.k = "bin" -> Par(Eff(X, e.l), Eff(X, e.r))
    [] e.k \in {"land", "lor", "comma"} -> Seq1(Eff(X, e.l), Eff(X, e.r))
    [] e.k = "cond" -> Seq1(Eff(X, e.c), Seq1(Eff(X, e.a), Eff(X, e.b)))
    [] e.k = "inc" -> LET p == Inner(X, e.a) t == Tgt(X, e.a) IN EF(p.r \cup t, p.w \cup t, p.x \/ t \cap p.w # {})
    [] e.k = "asn" -> LET p == Par(Inner(X, e.l), Eff(X, e.r)) t == Tgt(X, e.l) IN EF(p.r \cup (IF e.op = "=" THEN {} ELSE t), p.w \cup t, p.x \/ t \cap p.w # {} \/ (e.op # "=" /\ FALSE))
    [] e.k = "emit" -> Seq1(Eff(X, e.a), EF({"!"}, {"!"}, FALSE))
    [] e.k = "call" -> Seq1(EffL(X, e.args, 1, E0), IF e.f \in X.pure THEN EF({"*"}, {}, FALSE) ELSE EF({"*", "!"}, {"*", "!"}, FALSE))
    [] e.k = "callp" -> Seq1(Par(Eff(X, e.a), EffL(X, e.args, 1, E0)), EF({"*", "!"}, {"*", "!"}, FALSE))
    [] OTHER -> EF({}, {}, TRUE)
(* all expressions of a statement list, with the declarations of inner blocks *)
RECURSIVE ExprsOf(_), ExprsL(_,_), DeclsOf(_), DeclsL(_,_)
ExprsL(l, k) == IF k > Len(l) THEN {} ELSE ExprsOf(l[k]) \cup ExprsL(l, k+1)
ExprsOf(s) == CASE s.k = "expr" -> {s.e}
                [] s.k = "decl" -> IF s.init THEN {[k |-> "bin", op |-> "d", l |-> s.e, r |-> [k |-> "cast", t |-> s.t, a |-> [k |-> "var", n |-> s.n]]], s.e} ELSE {[k |-> "none"]}
                [] s.k = "block" -> ExprsL(s.b, 1)
                [] s.k = "if" -> {s.c} \cup ExprsOf(s.a) \cup ExprsOf(s.b)
                [] s.k \in {"while", "do"} -> {s.c} \cup ExprsOf(s.b)
                [] s.k = "for" -> {s.c} \cup ExprsL(s.init, 1) \cup ExprsOf(s.step) \cup ExprsOf(s.b)
                [] s.k = "switch" -> {s.e} \cup ExprsL(s.b, 1)
                [] s.k = "return" -> IF s.val THEN {s.e} ELSE {}
                [] OTHER -> {}
DeclsL(l, k) == IF k > Len(l) THEN {} ELSE DeclsOf(l[k]) \cup DeclsL(l, k+1)
DeclsOf(s) == CASE s.k = "decl" -> {s} [] s.k = "block" -> DeclsL(s.b, 1)
                [] s.k = "if" -> DeclsOf(s.a) \cup DeclsOf(s.b) [] s.k \in {"while", "do"} -> DeclsOf(s.b)
                [] s.k = "for" -> DeclsL(s.init, 1) \cup DeclsOf(s.b) [] s.k = "switch" -> DeclsL(s.b, 1) [] OTHER -> {}
RECURSIVE Subs(_), SubsL(_,_)
SubsL(l, k) == IF k > Len(l) THEN {} ELSE Subs(l[k]) \cup SubsL(l, k+1)
Subs(e) == {e} \cup (CASE e.k \in {"un", "cast", "addr", "deref", "mem", "arrow", "inc", "emit", "sizeofx"} -> Subs(e.a)
             [] e.k = "idx" -> Subs(e.a) \cup Subs(e.i) [] e.k \in {"bin", "land", "lor", "comma", "asn"} -> Subs(e.l) \cup Subs(e.r)
             [] e.k = "cond" -> Subs(e.c) \cup Subs(e.a) \cup Subs(e.b) [] e.k = "call" -> SubsL(e.args, 1)
             [] e.k = "callp" -> Subs(e.a) \cup SubsL(e.args, 1) [] OTHER -> {})
VarsOf(e) == {q.n : q \in {z \in Subs(e) : z.k = "var"}}
FunsOf(tree) == {k \in DOMAIN tree : tree[k].k = "func"}
RECURSIVE PureR(_,_,_)
PureF(d, p) ==      \* functions calling only p and writing only their own objects
  LET own == {d.ps[k].n : k \in DOMAIN d.ps} \cup {q.n : q \in DeclsL(d.body, 1)} IN
  \A e \in UNION {Subs(q) : q \in ExprsL(d.body, 1)} :
     CASE e.k \in {"emit", "callp", "callx"} -> FALSE [] e.k = "call" -> e.f \in p
       [] e.k = "asn" -> e.l.k = "var" /\ e.l.n \in own [] e.k = "inc" -> e.a.k = "var" /\ e.a.n \in own [] OTHER -> TRUE
PureR(tree, k, p) == IF k > Len(tree) THEN p ELSE PureR(tree, k+1, IF tree[k].k = "func" /\ PureF(tree[k], p) THEN p \cup {tree[k].n} ELSE p)
NoRun(tree, E) ==
  LET F == FunsOf(tree)
      glob == {tree[k].n : k \in {j \in DOMAIN tree : tree[j].k = "glob"}}
      funs == {tree[k].n : k \in F}
      all == UNION {UNION {Subs(q) : q \in ExprsL(tree[k].body, 1)} : k \in F}
      taken == {BaseOf(e.a) : e \in {q \in all : q.k = "addr"}} \cup {q.n : q \in UNION {{z \in DeclsL(tree[k].body, 1) : z.t[1] = "arr"} : k \in F}}
      X == [sh |-> glob \cup taken, pure |-> PureR(tree, 1, {})]
      local == {BaseOf(e.a) : e \in {q \in all : q.k = "addr"}} \ (glob \cup funs \cup {""})
      nested == {q.n : q \in UNION {UNION {DeclsOf(tree[k].body[j]) : j \in {z \in DOMAIN tree[k].body : tree[k].body[z].k # "decl"}} : k \in F}}
      decls == UNION {DeclsL(tree[k].body, 1) : k \in F}
  IN (IF \E k \in F : \E e \in ExprsL(tree[k].body, 1) : Eff(X, e).x THEN {"unsequenced"} ELSE {})
     \cup (IF \E d \in decls : ~d.init \/ TyOdd(d.t) \/ (d.n \in VarsOf(d.e)) THEN {"declaration"} ELSE {})
     \cup (IF \E k \in DOMAIN tree : tree[k].k = "glob" /\ (TyOdd(tree[k].t) \/ (tree[k].init /\ tree[k].t[1] \notin S!IntT)) THEN {"global"} ELSE {})
     \cup (IF \E k \in F : TyOdd(tree[k].ret) \/ (\E j \in DOMAIN tree[k].ps : TyOdd(tree[k].ps[j].t)) THEN {"function"} ELSE {})
     \cup (IF \E n \in DOMAIN E.tags : \E k \in DOMAIN E.tags[n].fs : TyOdd(E.tags[n].fs[k].t) THEN {"tag"} ELSE {})
     \cup (IF local \cap nested # {} \/ (local # {} /\ ((\E k \in F : tree[k].ret[1] = "ptr") \/ (\E k \in DOMAIN tree : tree[k].k = "glob" /\ ~Arith(tree[k].t)))) THEN {"lifetime"} ELSE {})
     \cup (IF \E e \in all : e.k = "callx" THEN {"callee"} ELSE {})

(* The program of CLang                                                    *)
RECURSIVE GlobsOf(_,_)
GlobsOf(tree, k) == IF k > Len(tree) THEN <<>> ELSE (IF tree[k].k = "glob" THEN <<tree[k]>> ELSE <<>>) \o GlobsOf(tree, k+1)
Bytes4(v) == C!FromNat(v % 65536, 2) \o C!FromNat((v \div 65536) % 65536, 2)
Program(tree, E) ==
  LET fs == SelectSeq(tree, LAMBDA d : d.k = "func")
      gs == GlobsOf(tree, 1)
      en == {n \in DOMAIN E.v : E.v[n].c = "const"}
      ag == {n \in DOMAIN E.tags : E.tags[n].k \in {"st", "un"}}
      ixOf(n) == CHOOSE k \in DOMAIN fs : fs[k].n = n
      P0 == [enums |-> [n \in en |-> Bytes4(E.v[n].v)], na |-> TRUE, tags |-> [n \in ag |-> E.tags[n].fs],
             funs |-> [n \in {fs[k].n : k \in DOMAIN fs} |-> LET d == fs[ixOf(n)] IN [ret |-> d.ret, ps |-> d.ps, va |-> d.va, body |-> d.body, ix |-> ixOf(n)]],
             order |-> [k \in DOMAIN fs |-> fs[k].n], genv |-> [z \in {} |-> 0]]
      envR[k \in 0..Len(gs)] == IF k = 0 THEN [z \in {} |-> 0] ELSE (gs[k].n :> [a |-> 65536 * k, t |-> gs[k].t]) @@ envR[k-1]
      mem == [k \in DOMAIN gs |-> IF gs[k].init THEN C!ConvT(C!Eval(P0, gs[k].e, [z \in {} |-> 0], C!StartState(<<>>)).v, gs[k].t).b ELSE C!Rep(0, C!SizeOf(P0, gs[k].t))]
  IN [P |-> [P0 EXCEPT !.genv = envR[Len(gs)]], mem |-> mem]
ArgT == << <<"int">>, <<"uint">>, <<"llong">>, <<"int">> >>
RunOf(G, args) == C!Call(G.P, "f", [k \in 1..4 |-> [k |-> "lit", t |-> ArgT[k], b |-> args[k]]], G.P.genv, [C!StartState(<<>>) EXCEPT !.m = G.mem, !.n = 250]).s
SigF == <<"fn", <<"void">>, ArgT, FALSE>>
RECURSIVE FirstDiff(_,_,_)
SameEv(x, y) == x[2] = y[2] /\ x[3] = y[3] /\ x[4] = y[4] /\ (y[1] = 0 \/ x[1] = y[1])
FirstDiff(x, y, k) == IF k > Len(x) \/ k > Len(y) THEN k
                      ELSE IF SameEv(x[k], y[k]) THEN FirstDiff(x, y, k+1) ELSE k
RunBad(G, r) ==
  LET s == RunOf(G, r.args) k == FirstDiff(s.ev, r.ev, 1) IN
  IF s.u THEN [ok |-> TRUE, skip |-> TRUE]
  ELSE IF k > Len(s.ev) /\ k > Len(r.ev) /\ ~r.trap THEN [ok |-> TRUE, skip |-> FALSE]
  ELSE [ok |-> FALSE, at |-> k, exp |-> IF k <= Len(s.ev) THEN s.ev[k] ELSE <<>>, obs |-> IF k <= Len(r.ev) THEN r.ev[k] ELSE <<>>]
Show(n) ==
  LET it == Items[n] R == Parse(it.x) IN
  IF R.i = 0 THEN
    (IF R.o # {} THEN PrintT(ToJson([i |-> n, open |-> SetToSeq(R.o)]))
     ELSE IF it.acc THEN PrintT(ToJson([i |-> n, want |-> "reject", bad |-> <<"syntax error">>]))
     ELSE PrintT(ToJson([i |-> n, rej |-> <<"syntax error">>])))
  ELSE LET r == S!Tops(S!Start, R.e, 1, S!Rs(S!Start, {}, {}))
           E == r.E
           ffun == S!Known(E, "f", "fun") /\ E.v["f"].g /\ E.v["f"].t = SigF
           und == \E m \in DOMAIN E.v : E.v[m].c = "fun" /\ ~E.v[m].g
           o == R.o \cup r.f \cup (IF ffun THEN {} ELSE {"signature of f"}) \cup (IF und THEN {"undefined function"} ELSE {}) \cup (IF "main" \in DOMAIN E.v THEN {"main"} ELSE {})
       IN IF o # {} THEN PrintT(ToJson([i |-> n, open |-> SetToSeq(o)]))
          ELSE IF r.b # {} THEN
            (IF it.acc THEN PrintT(ToJson([i |-> n, want |-> "reject", bad |-> SetToSeq(r.b)])) ELSE PrintT(ToJson([i |-> n, rej |-> SetToSeq(r.b)])))
          ELSE IF ~it.acc THEN PrintT(ToJson([i |-> n, want |-> "accept"]))
          ELSE LET nr == NoRun(R.e, E) IN
            IF nr # {} THEN PrintT(ToJson([i |-> n, norun |-> SetToSeq(nr)]))
            ELSE LET G == Program(R.e, E) q == [k \in DOMAIN it.runs |-> RunBad(G, it.runs[k])] bad == {k \in DOMAIN q : ~q[k].ok} IN
              IF bad # {} THEN (LET k == CHOOSE z \in bad : TRUE IN PrintT(ToJson([i |-> n, run |-> k, at |-> q[k].at, exp |-> q[k].exp, obs |-> q[k].obs])))
              ELSE PrintT(ToJson([i |-> n, ran |-> Cardinality({k \in DOMAIN q : ~q[k].skip}), of |-> Len(q)]))
Init == i \in 1..Len(Items) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ Show(i)
=============================================================================
