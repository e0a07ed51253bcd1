------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Static semantics: which programs are well formed.                       *)
(*                                                                         *)
(* A program is a sequence of top-level declarations (records with a kind  *)
(* field "k"), statements and expressions the syntax trees of CLang, types *)
(* tuples: <<"int">>, <<"ptr",T>>, <<"arr",T,n>>, <<"st",tag>>,            *)
(* <<"un",tag>>, <<"en",tag>>, <<"fn",ret,params,va>>, <<"name",typedef>>, *)
(* <<"void">>.                                                             *)
(* Judging a construct yields the set b of rules it breaks and the set f   *)
(* of questions it raises that the language definition leaves open (the    *)
(* documentation of the dialect takes back part of C there, or only hints  *)
(* at it).  A program must be accepted if both sets are empty and rejected *)
(* if only f is.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Narrow == {"bool", "char", "uchar", "short", "ushort"}
W4 == {"int", "uint", "long", "ulong"}
W8 == {"llong", "ullong"}
IntT == Narrow \cup W4 \cup W8
FloT == {"float", "double"}
IsInt(t) == t[1] \in IntT
IsFlo(t) == t[1] \in FloT
IsEn(t) == t[1] = "en"
IsArith(t) == IsInt(t) \/ IsFlo(t) \/ IsEn(t)
IsPtr(t) == t[1] = "ptr"
IsAgg(t) == t[1] \in {"st", "un"}
IsArr(t) == t[1] = "arr"
IsFn(t) == t[1] = "fn"
IsVoid(t) == t[1] = "void"
IsErr(t) == t[1] = "err"
Rank(s) == CASE s \in Narrow -> 1 [] s = "int" -> 1 [] s = "uint" -> 2 [] s = "long" -> 3 [] s = "ulong" -> 4
             [] s = "llong" -> 5 [] s = "ullong" -> 6 [] s = "float" -> 7 [] OTHER -> 8
OfRank(r) == <<"int", "uint", "long", "ulong", "llong", "ullong", "float", "double">>[r]
KindOf(t) == IF IsEn(t) THEN "int" ELSE t[1]
Prom(t) == <<OfRank(Rank(KindOf(t)))>>
Comm(t, u) == LET a == Rank(KindOf(t)) c == Rank(KindOf(u)) IN <<OfRank(IF a > c THEN a ELSE c)>>

(* Environment: v maps identifiers to a stack-free view of the innermost   *)
(* declaration, loc the names declared in the current scope; tags, types.  *)
Has(m, n) == n \in DOMAIN m
RECURSIVE Res(_,_)
Res(E, t) == CASE t[1] = "name" -> IF Has(E.v, t[2]) /\ E.v[t[2]].c = "type" THEN Res(E, E.v[t[2]].t) ELSE <<"err">>
               [] t[1] = "ptr" -> LET u == Res(E, t[2]) IN IF IsErr(u) THEN u ELSE <<"ptr", u>>
               [] t[1] = "arr" -> LET u == Res(E, t[2]) IN IF IsErr(u) THEN u ELSE <<"arr", u, t[3]>>
               [] t[1] = "fn" -> LET u == Res(E, t[2]) p == [k \in DOMAIN t[3] |-> Res(E, t[3][k])] IN
                    IF IsErr(u) \/ \E k \in DOMAIN p : IsErr(p[k]) THEN <<"err">> ELSE <<"fn", u, p, t[4]>>
               [] OTHER -> t
RECURSIVE Complete(_,_), TypeBad(_,_), TypeFree(_,_)
Complete(E, t) == CASE IsAgg(t) -> Has(E.tags, t[2]) /\ E.tags[t[2]].k = t[1]
                    [] IsArr(t) -> t[3] > 0 /\ Complete(E, t[2])
                    [] IsVoid(t) \/ IsFn(t) \/ IsErr(t) -> FALSE
                    [] OTHER -> TRUE
(* Rules broken by the type itself                                         *)
TypeBad(E, t) ==
  CASE t[1] = "name" -> IF Has(E.v, t[2]) /\ E.v[t[2]].c = "type" THEN {} ELSE {"unknown type"}
    [] IsPtr(t) -> TypeBad(E, t[2]) \ {"array size", "array of incomplete"}
    [] IsArr(t) -> TypeBad(E, t[2]) \cup (IF t[3] <= 0 THEN {"array size"} ELSE {})
                    \cup (LET u == Res(E, t[2]) IN IF IsErr(u) \/ Complete(E, u) THEN {} ELSE {"array of incomplete"})
    [] IsFn(t) -> TypeBad(E, t[2]) \cup UNION {TypeBad(E, t[3][k]) : k \in DOMAIN t[3]}
                   \cup (IF \E k \in DOMAIN t[3] : IsVoid(t[3][k]) THEN {"void parameter"} ELSE {})
    [] IsAgg(t) -> IF Has(E.tags, t[2]) /\ E.tags[t[2]].k \notin {t[1], "inc"} THEN {"wrong kind of tag"} ELSE {}
    [] OTHER -> {}
TypeFree(E, t) ==
  CASE IsEn(t) -> IF Has(E.tags, t[2]) THEN {} ELSE {"unknown enumeration"}
    [] IsPtr(t) -> TypeFree(E, t[2]) \cup (TypeBad(E, t[2]) \cap {"array size", "array of incomplete"})
    [] IsArr(t) -> TypeFree(E, t[2])
    [] IsFn(t) -> TypeFree(E, t[2]) \cup UNION {TypeFree(E, t[3][k]) : k \in DOMAIN t[3]}
                    \cup (IF \E k \in DOMAIN t[3] : IsAgg(t[3][k]) \/ IsArr(t[3][k]) THEN {"aggregate parameter"} ELSE {})
    [] OTHER -> {}

----------------------------------------------------------------------------
(* Results of judging an expression: type, lvalue?, constant?, zero?       *)
R(t) == [t |-> t, lv |-> FALSE, c |-> FALSE, z |-> FALSE, b |-> {}, f |-> {}]
RB(x) == [R(<<"err">>) EXCEPT !.b = {x}]
RF(t, x) == [R(t) EXCEPT !.f = {x}]
LvR(t) == [R(t) EXCEPT !.lv = TRUE]
Under(r, q) == [r EXCEPT !.b = @ \cup q.b, !.f = @ \cup q.f]      \* add the findings of a part
Under2(r, p, q) == Under(Under(r, p), q)

(* Implicit conversion: "ok", "bad" or "free".  how: "arg", "ret", "asn".  *)
Conv(d, r, how) ==
  LET s == r.t IN
  CASE IsErr(d) \/ IsErr(s) -> "ok"
    [] IsVoid(s) -> "bad"
    [] IsArith(d) /\ IsArith(s) ->
        LET dk == IF IsEn(d) THEN "int" ELSE d[1] sk == IF IsEn(s) THEN "int" ELSE s[1] IN
        (CASE dk = sk /\ d = s -> "ok"
          [] (IsEn(d) \/ dk \in Narrow) /\ how = "asn" -> IF sk \in Narrow \cup {"int"} THEN "ok" ELSE "free"
          [] IsEn(d) -> "free"
          [] r.c /\ dk \in IntT \cup FloT /\ Rank(sk) > Rank(dk) -> "free"       \* a constant may fit
          [] dk \in Narrow -> IF sk \in Narrow \cup {"int"} THEN "ok"
                              ELSE IF sk = "uint" /\ how = "ret" THEN "free" ELSE "bad"
          [] Rank(sk) <= Rank(dk) -> "ok"
          [] dk \in FloT -> "bad"
          [] sk \in FloT -> "bad"
          [] dk \in W4 /\ sk \in W8 -> "bad"
          [] dk = "int" /\ sk = "uint" /\ how = "arg" -> "bad"
          [] dk = "llong" /\ how = "arg" -> "bad"
          [] OTHER -> "free")
    [] IsPtr(d) /\ IsPtr(s) ->
        IF d = s THEN "ok"
        ELSE IF IsFn(d[2]) \/ IsFn(s[2]) THEN (IF IsVoid(d[2]) \/ IsVoid(s[2]) THEN "free" ELSE "bad")
        ELSE IF IsVoid(d[2]) THEN "ok"
        ELSE IF IsVoid(s[2]) THEN "free" ELSE "bad"
    [] IsPtr(d) /\ IsArr(s) -> IF IsVoid(d[2]) \/ d[2] = s[2] THEN "free" ELSE "bad"
    [] IsPtr(d) /\ IsFn(s) -> IF IsFn(d[2]) \/ IsVoid(d[2]) THEN "free" ELSE "bad"
    [] IsPtr(d) /\ IsInt(s) /\ r.z -> "free"
    [] IsAgg(d) -> IF d = s THEN "ok" ELSE "bad"
    [] IsArr(d) -> IF d = s THEN (IF how = "asn" THEN "ok" ELSE "free") ELSE "bad"
    [] OTHER -> "bad"
Use(r, d, q, how) == LET v == Conv(d, q, how) IN      \* r with q converted to d
  IF v = "bad" THEN [r EXCEPT !.b = @ \cup {"conversion"}] ELSE IF v = "free" THEN [r EXCEPT !.f = @ \cup {"conversion"}] ELSE r

(* A value used as a truth value                                           *)
TestOf(r) == CASE IsErr(r.t) -> r
               [] IsEn(r.t) -> [r EXCEPT !.f = @ \cup {"enum test"}]
               [] IsArith(r.t) -> r
               [] IsPtr(r.t) \/ IsArr(r.t) \/ IsFn(r.t) -> [r EXCEPT !.f = @ \cup {"pointer test"}]
               [] OTHER -> [r EXCEPT !.b = @ \cup {"not a truth value"}]
ArithOps == {"*", "/"}
IntOps == {"%", "&", "|", "^", "<<", ">>"}
RelOps == {"<", ">", "<=", ">=", "==", "!="}
IndexOk(t) == IF IsEn(t) \/ t[1] \in W8 THEN "free" ELSE IF IsInt(t) THEN "ok" ELSE "bad"
MoveOk(E, p, t) == IF IsVoid(p[2]) \/ IsFn(p[2]) \/ ~Complete(E, p[2]) THEN "bad" ELSE IndexOk(t)
BinR(E, op, l, r) ==       \* the type part only
  LET t == l.t u == r.t IN
  CASE IsErr(t) \/ IsErr(u) -> R(<<"err">>)
    [] IsVoid(t) \/ IsVoid(u) -> RB("void operand")
    [] IsAgg(t) \/ IsAgg(u) -> RB("aggregate operand")
    [] (IsFn(t) \/ IsFn(u)) -> RF(<<"err">>, "function operand")
    [] (IsArr(t) \/ IsArr(u)) -> IF op \in ArithOps \cup IntOps THEN RB("array operand") ELSE RF(<<"err">>, "array operand")
    [] op \in RelOps ->
        IF IsArith(t) /\ IsArith(u) THEN (IF IsEn(t) \/ IsEn(u) THEN RF(<<"int">>, "enum comparison") ELSE R(<<"int">>))
        ELSE IF IsPtr(t) /\ IsPtr(u) THEN (IF t = u THEN R(<<"int">>) ELSE RF(<<"int">>, "pointer types"))
        ELSE IF (l.z /\ IsInt(t)) \/ (r.z /\ IsInt(u)) THEN RF(<<"int">>, "null") ELSE RB("compared types")
    [] IsEn(t) \/ IsEn(u) -> IF (IsEn(t) \/ IsArith(t)) /\ (IsEn(u) \/ IsArith(u)) THEN RF(<<"err">>, "enum arithmetic")
                             ELSE IF op \in ArithOps \cup IntOps THEN RB("operand types") ELSE RF(<<"err">>, "enum arithmetic")
    [] op \in ArithOps -> IF IsArith(t) /\ IsArith(u) THEN R(Comm(t, u)) ELSE RB("operand types")
    [] op \in IntOps -> IF IsInt(t) /\ IsInt(u) THEN R(IF op \in {"<<", ">>"} THEN Prom(t) ELSE Comm(t, u)) ELSE RB("operand types")
    [] IsArith(t) /\ IsArith(u) -> R(Comm(t, u))
    [] IsPtr(t) /\ IsPtr(u) -> IF op = "+" THEN RB("pointer sum")
                               ELSE IF t # u \/ IsVoid(t[2]) \/ IsFn(t[2]) \/ ~Complete(E, t[2]) THEN RB("pointer difference") ELSE R(<<"long">>)
    [] IsPtr(t) -> LET m == MoveOk(E, t, u) IN IF m = "ok" THEN R(t) ELSE IF m = "free" THEN RF(t, "index width") ELSE RB("pointer arithmetic")
    [] OTHER -> IF op = "-" THEN RB("pointer subtracted")
                ELSE LET m == MoveOk(E, u, t) IN IF m = "ok" THEN R(u) ELSE IF m = "free" THEN RF(u, "index width") ELSE RB("pointer arithmetic")

FieldT(E, t, n) == LET fs == E.tags[t[2]].fs S == {k \in DOMAIN fs : fs[k].n = n} IN
                   IF S = {} THEN <<"err">> ELSE fs[CHOOSE k \in S : TRUE].t
CastR(E, d, q) ==
  LET s == q.t IN
  CASE IsErr(d) \/ IsErr(s) -> R(d)
    [] IsVoid(d) -> R(d)
    [] IsVoid(s) -> RB("cast of void")
    [] IsAgg(d) \/ IsArr(d) \/ IsFn(d) -> IF d = s THEN RF(d, "cast to aggregate") ELSE RB("cast to aggregate")
    [] IsAgg(s) -> RB("cast of aggregate")
    [] IsArr(s) \/ IsFn(s) -> IF IsPtr(d) \/ IsInt(d) THEN RF(d, "cast of array") ELSE RB("cast of array")
    [] IsArith(d) /\ IsArith(s) -> R(d)
    [] IsPtr(d) /\ IsPtr(s) -> R(d)
    [] IsFlo(d) \/ IsFlo(s) -> RB("pointer and floating")
    [] IsPtr(d) -> IF IsEn(s) \/ s[1] \in W8 THEN RF(d, "wide to pointer") ELSE R(d)
    [] d[1] \in {"long", "ulong", "llong", "ullong"} -> R(d)
    [] OTHER -> RF(d, "pointer to narrow")

RECURSIVE Ex(_,_), Args(_,_,_,_,_), Expr(_,_)
(* A subexpression whose value is used                                     *)
Val(E, e) == LET r == Ex(E, e) IN IF IsVoid(r.t) THEN [r EXCEPT !.t = <<"err">>, !.b = @ \cup {"void value"}] ELSE r
Args(E, sig, as, k, r) ==      \* sig = <<"fn", ret, params, va>>
  IF k > Len(as) THEN r
  ELSE LET q == Val(E, as[k]) IN
    Args(E, sig, as, k+1,
      LET r1 == Under(r, q) IN
      IF k <= Len(sig[3]) THEN Use(r1, sig[3][k], q, "arg")
      ELSE IF IsErr(q.t) \/ (IsArith(q.t) /\ ~IsEn(q.t)) \/ IsPtr(q.t) THEN r1 ELSE [r1 EXCEPT !.f = @ \cup {"extra argument"}])
CallR(E, sig, as) ==
  LET n == Len(sig[3])
      r == IF Len(as) < n \/ (Len(as) > n /\ ~sig[4]) THEN [R(sig[2]) EXCEPT !.b = {"number of arguments"}] ELSE R(sig[2]) IN
  Args(E, sig, as, 1, r)
Ex(E, e) == Expr(E, e)
Expr(E, e) ==
  CASE e.k = "lit" -> [R(e.t) EXCEPT !.c = TRUE, !.z = (IsInt(e.t) /\ e.v = 0)]
    [] e.k = "str" -> [R(<<"ptr", <<"char">>>>) EXCEPT !.c = TRUE]
    [] e.k = "var" -> IF ~Has(E.v, e.n) THEN RB("undeclared")
                      ELSE LET d == E.v[e.n] IN
                        (CASE d.c = "var" -> LvR(d.t)
                          [] d.c = "const" -> [R(<<"int">>) EXCEPT !.c = TRUE, !.z = (d.v = 0)]
                          [] d.c = "fun" -> R(d.t)
                          [] OTHER -> RB("type as value"))
    [] e.k = "idx" -> LET p == Val(E, e.a) q == Val(E, e.i) IN
        Under2(CASE IsErr(p.t) \/ IsErr(q.t) -> R(<<"err">>)
                 [] IsArr(p.t) \/ IsPtr(p.t) ->
                     LET m == IF IsArr(p.t) THEN IndexOk(q.t) ELSE MoveOk(E, p.t, q.t) IN
                     IF m = "bad" THEN RB("subscript") ELSE IF m = "free" THEN [LvR(p.t[2]) EXCEPT !.f = {"index width"}] ELSE LvR(p.t[2])
                 [] IsArr(q.t) \/ IsPtr(q.t) -> IF IsArith(p.t) /\ ~IsFlo(p.t) THEN RF(<<"err">>, "reversed subscript") ELSE RB("subscript")
                 [] OTHER -> RB("subscript"), p, q)
    [] e.k = "deref" -> LET p == Val(E, e.a) IN
        Under(CASE IsErr(p.t) -> p
                [] IsArr(p.t) \/ IsFn(p.t) -> RF(<<"err">>, "indirection on array")
                [] IsPtr(p.t) -> IF IsVoid(p.t[2]) THEN RF(<<"void">>, "indirection on void*")
                                 ELSE IF IsFn(p.t[2]) THEN RF(p.t[2], "function designator")
                                 ELSE IF ~Complete(E, p.t[2]) THEN RF(p.t[2], "incomplete") ELSE LvR(p.t[2])
                [] OTHER -> RB("indirection"), p)
    [] e.k = "mem" -> LET p == Val(E, e.a) IN
        Under(CASE IsErr(p.t) -> p
                [] IsAgg(p.t) -> IF ~Complete(E, p.t) THEN RB("incomplete")
                                 ELSE LET t == FieldT(E, p.t, e.f) IN
                                   IF IsErr(t) THEN RB("no such member") ELSE IF p.lv THEN LvR(t) ELSE RF(t, "member of value")
                [] OTHER -> RB("member of non-aggregate"), p)
    [] e.k = "arrow" -> LET p == Val(E, e.a) IN
        Under(CASE IsErr(p.t) -> p
                [] IsArr(p.t) -> IF IsAgg(p.t[2]) THEN RF(<<"err">>, "arrow on array") ELSE RB("member of non-aggregate")
                [] IsPtr(p.t) /\ IsAgg(p.t[2]) ->
                     IF ~Complete(E, p.t[2]) THEN RB("incomplete")
                     ELSE LET t == FieldT(E, p.t[2], e.f) IN IF IsErr(t) THEN RB("no such member") ELSE LvR(t)
                [] OTHER -> RB("member of non-aggregate"), p)
    [] e.k = "addr" -> LET p == Ex(E, e.a) IN
        Under(CASE IsErr(p.t) -> p
                [] IsFn(p.t) -> R(<<"ptr", p.t>>)
                [] IsVoid(p.t) -> IF e.a.k = "deref" THEN RF(<<"err">>, "address of *void") ELSE RB("address of non-lvalue")
                [] p.lv -> IF e.a.k = "var" /\ E.v[e.a.n].g /\ ~IsAgg(p.t) /\ ~IsArr(p.t) THEN RF(<<"ptr", p.t>>, "address of global scalar")
                           ELSE IF e.a.k = "deref" THEN R(<<"ptr", p.t>>) ELSE R(<<"ptr", p.t>>)
                [] p.f # {} -> RF(<<"err">>, "address")
                [] OTHER -> RB("address of non-lvalue"), p)
    [] e.k = "un" -> LET p == Val(E, e.a) r == (
        CASE IsErr(p.t) -> p
          [] IsEn(p.t) -> RF(<<"int">>, "enum arithmetic")
          [] e.op = "!" -> IF IsArith(p.t) THEN R(<<"int">>) ELSE IF IsAgg(p.t) THEN RB("operand type") ELSE RF(<<"int">>, "pointer test")
          [] e.op = "~" -> IF IsInt(p.t) THEN R(Prom(p.t)) ELSE RB("operand type")
          [] OTHER -> IF IsArith(p.t) THEN R(Prom(p.t)) ELSE RB("operand type")) IN
        [Under(r, p) EXCEPT !.c = p.c, !.lv = FALSE, !.z = FALSE]
    [] e.k = "bin" -> LET p == Val(E, e.l) q == Val(E, e.r) r == BinR(E, e.op, p, q) IN
        [Under2(r, p, q) EXCEPT !.c = p.c /\ q.c]
    [] e.k \in {"land", "lor"} -> LET p == TestOf(Val(E, e.l)) q == TestOf(Val(E, e.r)) IN
        [Under2(R(<<"int">>), p, q) EXCEPT !.c = p.c /\ q.c]
    [] e.k = "cond" ->
        LET p == TestOf(Val(E, e.c)) x == Ex(E, e.a) y == Ex(E, e.b) t == x.t u == y.t
            r == (CASE IsErr(t) \/ IsErr(u) -> R(<<"err">>)
              [] IsVoid(t) /\ IsVoid(u) -> RF(t, "void branches")
              [] IsVoid(t) \/ IsVoid(u) -> RB("branch types")
              [] IsArith(t) /\ IsArith(u) -> IF IsEn(t) \/ IsEn(u) THEN RF(<<"int">>, "enum branches") ELSE R(Comm(t, u))
              [] IsAgg(t) /\ t = u -> RF(t, "aggregate branches")
              [] IsArr(t) \/ IsArr(u) \/ IsFn(t) \/ IsFn(u) -> RF(<<"err">>, "array branches")
              [] IsPtr(t) /\ IsPtr(u) -> IF t = u THEN R(t) ELSE IF IsVoid(t[2]) \/ IsVoid(u[2]) THEN RF(<<"ptr", <<"void">>>>, "void branch") ELSE RB("branch types")
              [] (IsPtr(t) /\ y.z) \/ (IsPtr(u) /\ x.z) -> RF(IF IsPtr(t) THEN t ELSE u, "null")
              [] OTHER -> RB("branch types")) IN
        [Under2(Under(r, p), x, y) EXCEPT !.c = p.c /\ x.c /\ y.c]
    [] e.k = "comma" -> LET p == Ex(E, e.l) q == Ex(E, e.r) IN
        Under2([R(q.t) EXCEPT !.f = IF IsAgg(q.t) \/ IsArr(q.t) THEN {"aggregate value"} ELSE {}], p, q)
    [] e.k = "cast" -> LET q == Ex(E, e.a) tb == TypeBad(E, e.t) d == Res(E, e.t) r == CastR(E, d, q) IN
        [Under(r, q) EXCEPT !.b = @ \cup tb, !.f = @ \cup TypeFree(E, e.t), !.c = q.c /\ IsArith(d), !.z = FALSE]
    [] e.k = "asn" ->
        LET p == Val(E, e.l) q == Val(E, e.r) IN
        Under2(CASE IsErr(p.t) -> p
                 [] ~p.lv -> IF IsFn(p.t) THEN RB("assignment to function")
                             ELSE IF p.f # {} THEN RF(<<"err">>, "assignment") ELSE RB("assignment to non-lvalue")
                 [] e.op = "=" -> Use(R(p.t), p.t, q, "asn")
                 [] OTHER -> LET m == BinR(E, e.op, p, q) IN
                     IF m.b # {} \/ m.f # {} THEN [m EXCEPT !.t = p.t]
                     ELSE IF IsPtr(p.t) /\ m.t # p.t THEN RB("conversion")
                     ELSE Use(R(p.t), p.t, [m EXCEPT !.c = FALSE], "asn"), p, q)
    [] e.k = "inc" -> LET p == Val(E, e.a) IN
        Under(CASE IsErr(p.t) -> p
                [] ~p.lv -> IF IsFn(p.t) THEN RB("assignment to function") ELSE IF p.f # {} THEN RF(<<"err">>, "assignment") ELSE RB("assignment to non-lvalue")
                [] IsEn(p.t) -> RF(p.t, "enum arithmetic")
                [] IsArith(p.t) -> R(p.t)
                [] IsPtr(p.t) -> IF MoveOk(E, p.t, <<"int">>) = "bad" THEN RB("pointer arithmetic") ELSE R(p.t)
                [] OTHER -> RB("operand type"), p)
    [] e.k = "call" ->
        IF ~Has(E.v, e.f) THEN Under(RB("undeclared"), Args(E, <<"fn", <<"err">>, <<>>, TRUE>>, e.args, 1, R(<<"err">>)))
        ELSE LET d == E.v[e.f] IN
          IF d.c = "fun" THEN CallR(E, d.t, e.args)
          ELSE Under(RB("call of non-function"), Args(E, <<"fn", <<"err">>, <<>>, TRUE>>, e.args, 1, R(<<"err">>)))
    [] e.k = "callp" -> LET p == Val(E, e.a) any == Args(E, <<"fn", <<"err">>, <<>>, TRUE>>, e.args, 1, R(<<"err">>)) IN
        Under(CASE IsErr(p.t) -> any
                [] IsPtr(p.t) /\ IsFn(p.t[2]) -> CallR(E, p.t[2], e.args)
                [] IsFn(p.t) -> Under(RF(<<"err">>, "call of *f"), any)
                [] OTHER -> Under(RB("call of non-function"), any), p)
    [] e.k = "sizeof" -> LET tb == TypeBad(E, e.t) t == Res(E, e.t) IN
        [R(<<"int">>) EXCEPT !.c = TRUE, !.f = TypeFree(E, e.t), !.b = tb \cup (IF IsErr(t) \/ Complete(E, t) THEN {} ELSE {"size of incomplete"})]
    [] e.k = "sizeofu" -> LET tb == TypeBad(E, e.t) t == Res(E, e.t) IN
        [R(<<"int">>) EXCEPT !.c = TRUE, !.f = TypeFree(E, e.t), !.b = tb \cup (IF IsErr(t) \/ Complete(E, t) THEN {} ELSE {"size of incomplete"})]
    [] e.k = "sizeofx" -> LET p == Ex(E, e.a) IN
        [R(<<"int">>) EXCEPT !.c = TRUE, !.b = p.b \cup (IF IsErr(p.t) \/ Complete(E, p.t) THEN {} ELSE {"size of incomplete"}),
                              !.f = p.f \cup (IF e.a.k = "str" THEN {"size of string"} ELSE {})]
    [] e.k = "emit" -> LET p == Val(E, e.a) IN
        Under(IF IsErr(p.t) THEN p ELSE IF IsInt(p.t) THEN R(<<"void">>) ELSE IF IsVoid(p.t) \/ IsAgg(p.t) THEN RB("emitted value") ELSE RF(<<"void">>, "emitted value"), p)
    [] e.k = "callx" -> LET p == Ex(E, e.a) any == Args(E, <<"fn", <<"err">>, <<>>, TRUE>>, e.args, 1, R(<<"err">>)) IN
        Under(Under(RB("call of non-function"), any), p)
    [] e.k = "offsetof" -> LET tb == TypeBad(E, e.t) t == Res(E, e.t) IN
        [R(<<"int">>) EXCEPT !.c = TRUE, !.b = tb \cup (IF IsErr(t) THEN {} ELSE IF ~IsAgg(t) \/ ~Complete(E, t) THEN {"offset in non-aggregate"}
                                                       ELSE IF IsErr(FieldT(E, t, e.f)) THEN {"no such member"} ELSE {})]

(* The value of a small integer constant expression; 0 when not constant   *)
RECURSIVE Cst(_,_)
Cst(E, e) == CASE e.k = "lit" -> e.v
               [] e.k = "var" -> IF Has(E.v, e.n) /\ E.v[e.n].c = "const" THEN E.v[e.n].v ELSE 0
               [] e.k = "un" -> IF e.op = "-" THEN 0 - Cst(E, e.a) ELSE IF e.op = "!" THEN (IF Cst(E, e.a) = 0 THEN 1 ELSE 0) ELSE Cst(E, e.a)
               [] e.k = "bin" -> LET x == Cst(E, e.l) y == Cst(E, e.r) IN
                    (CASE e.op = "+" -> x + y [] e.op = "-" -> x - y [] e.op = "*" -> x * y
                       [] e.op = "==" -> IF x = y THEN 1 ELSE 0 [] e.op = "<" -> IF x < y THEN 1 ELSE 0 [] OTHER -> 0)
               [] OTHER -> 0
RECURSIVE Simple(_,_)
Simple(E, e) == \* Cst computes its value
  CASE e.k = "lit" -> IsInt(e.t) /\ e.t[1] = "int"
    [] e.k = "var" -> Has(E.v, e.n) /\ E.v[e.n].c = "const"
    [] e.k = "un" -> e.op \in {"-", "!", "+"} /\ Simple(E, e.a)
    [] e.k = "bin" -> e.op \in {"+", "-", "*", "==", "<"} /\ Simple(E, e.l) /\ Simple(E, e.r)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Statements.  X is the context: ret (return type), loop, brk, the labels *)
(* in scope, lab (all labels of the function).  Judging yields the         *)
(* environment after the statement and the findings.                       *)
Rs(E, b, f) == [E |-> E, b |-> b, f |-> f]
Enter(E) == [E EXCEPT !.loc = {}]
Declare(E, n, d) == [E EXCEPT !.v = (n :> d) @@ @, !.loc = @ \cup {n}]
VarD(t) == [c |-> "var", t |-> t, g |-> FALSE, v |-> 0]
Hides(E, n) == IF Has(E.v, n) /\ n \notin E.loc /\ E.v[n].c \in {"type", "const"} THEN {"hidden type name"} ELSE {}
ObjBad(E, t) == LET tb == TypeBad(E, t) u == Res(E, t) IN
                tb \cup (IF IsErr(u) \/ tb # {} \/ Complete(E, u) THEN {} ELSE {"object of incomplete type"})
LabelsOf(l) == {l[k].n : k \in {j \in DOMAIN l : l[j].k = "label"}}
EndLabels(l) ==      \* labels at the start and the end of the block
  LET N == Len(l)
      pre == {k \in 1..N : \A j \in 1..k : l[j].k = "label"}
      suf == {k \in 1..N : \A j \in k..N : l[j].k = "label"}
  IN {l[k].n : k \in pre \cup suf}
RECURSIVE AllLabels(_), SubLabels(_,_)
AllLabels(s) ==
  CASE s.k = "label" -> <<s.n>>
    [] s.k \in {"block", "switch"} -> SubLabels(s.b, 1)
    [] s.k = "if" -> AllLabels(s.a) \o AllLabels(s.b)
    [] s.k \in {"while", "do", "for"} -> AllLabels(s.b)
    [] OTHER -> <<>>
SubLabels(l, k) == IF k > Len(l) THEN <<>> ELSE AllLabels(l[k]) \o SubLabels(l, k+1)
MidLabels(l) == LabelsOf(l) \ EndLabels(l)
RECURSIVE Stmt(_,_,_), Stmts(_,_,_,_,_), Cases(_,_,_)
Body(E, X, s) == LET r == Stmt(Enter(E), X, s) IN [r EXCEPT !.E = E]     \* statement in a scope of its own
Join(r, q) == [r EXCEPT !.b = @ \cup q.b, !.f = @ \cup q.f]
Stmts(E, X, l, k, r) == IF k > Len(l) THEN r
                        ELSE LET q == Stmt(r.E, X, l[k]) IN Stmts(E, X, l, k+1, [q EXCEPT !.b = @ \cup r.b, !.f = @ \cup r.f])
Block(E, X, l) ==        \* in the scope that is already open
  LET lab == LabelsOf(l)
      X1 == [X EXCEPT !.goal = @ \cup EndLabels(l)]
      r == Stmts(E, X1, l, 1, Rs(E, {}, {}))
  IN [r EXCEPT !.f = @ \cup (IF MidLabels(l) # {} THEN {"label inside block"} ELSE {}) \cup (IF Len(SelectSeq(l, LAMBDA x : x.k = "label")) > 1 THEN {"several labels in block"} ELSE {})
                        \cup (IF lab # {} /\ \A k \in DOMAIN l : l[k].k \in {"label", "empty"} THEN {"only a label in block"} ELSE {})]
Cases(E, l, k) == IF k > Len(l) THEN <<>> ELSE (IF l[k].k = "case" THEN <<Cst(E, l[k].e)>> ELSE <<>>) \o Cases(E, l, k+1)
Dup(s) == \E j, k \in DOMAIN s : j < k /\ s[j] = s[k]
Stmt(E, X, s) ==
  CASE s.k = "expr" -> LET r == Ex(E, s.e) IN Rs(E, r.b, r.f \cup (IF IsAgg(r.t) /\ s.e.k # "asn" THEN {"aggregate statement"} ELSE {}))
    [] s.k = "empty" -> Rs(E, {}, {})
    [] s.k = "block" -> LET r == Block(Enter(E), X, s.b) IN [r EXCEPT !.E = E]
    [] s.k = "if" -> LET c == TestOf(Val(E, s.c)) IN Join(Join(Rs(E, c.b, c.f), Body(E, X, s.a)), Body(E, X, s.b))
    [] s.k \in {"while", "do"} -> LET c == TestOf(Val(E, s.c)) IN
         Join(Rs(E, c.b, c.f), Body(E, [X EXCEPT !.loop = TRUE, !.brk = TRUE], s.b))
    [] s.k = "for" ->
         LET i == Stmts(E, X, s.init, 1, Rs(Enter(E), {}, {}))
             c == IF s.c.k = "none" THEN R(<<"int">>) ELSE TestOf(Val(i.E, s.c))
             p == Stmt(i.E, X, s.step)
             b == Body(i.E, [X EXCEPT !.loop = TRUE, !.brk = TRUE], s.b)
         IN [Join(Join(Join(i, Rs(E, c.b, c.f)), p), b) EXCEPT !.E = E]
    [] s.k = "switch" ->
         LET c == Val(E, s.e)
             cs == SelectSeq(s.b, LAMBDA x : x.k = "case")
             cr == [k \in DOMAIN cs |-> Ex(E, cs[k].e)]
             vals == Cases(E, cs, 1)
             simple == \A k \in DOMAIN cs : Simple(E, cs[k].e)
             ds == Cardinality({k \in DOMAIN s.b : s.b[k].k = "default"})
             rest == SelectSeq(s.b, LAMBDA x : x.k \notin {"case", "default"})
             b == Block(Enter(E), [X EXCEPT !.brk = TRUE], rest)
             sel == (CASE IsErr(c.t) -> {} [] IsInt(c.t) \/ IsEn(c.t) -> {} [] OTHER -> {"switch selector"})
             bad == (IF \E k \in DOMAIN cr : cr[k].b = {} /\ (~cr[k].c) THEN {"case label not constant"} ELSE {})
                    \cup (IF \E k \in DOMAIN cr : cr[k].c /\ cr[k].b = {} /\ ~IsInt(cr[k].t) /\ ~IsErr(cr[k].t) THEN {"case label not an integer"} ELSE {})
                    \cup (IF simple /\ Dup(vals) THEN {"duplicate case"} ELSE {})
                    \cup (IF ds > 1 THEN {"duplicate default"} ELSE {})
                    \cup UNION {cr[k].b : k \in DOMAIN cr}
             fr == (IF ~simple \/ (IsInt(c.t) /\ c.t[1] \in (W8 \cup W4) \ {"int"}) THEN {"case value"} ELSE {})
                   \cup (IF IsEn(c.t) THEN {"enum selector"} ELSE {})
                   \cup (IF s.b # <<>> /\ s.b[1].k \notin {"case", "default"} THEN {"statement before case"} ELSE {})
                   \cup (IF \E k \in DOMAIN s.b : s.b[k].k = "decl" THEN {"declaration in switch"} ELSE {})
                   \cup UNION {cr[k].f : k \in DOMAIN cr}
         IN [Join(b, Rs(E, c.b \cup sel \cup bad, c.f \cup fr)) EXCEPT !.E = E]
    [] s.k \in {"case", "default"} -> Rs(E, {"case outside switch"}, {})
    [] s.k = "break" -> Rs(E, IF X.brk THEN {} ELSE {"break outside loop"}, {})
    [] s.k = "continue" -> Rs(E, IF X.loop THEN {} ELSE {"continue outside loop"}, {})
    [] s.k = "goto" -> Rs(E, IF s.n \in X.goal THEN {} ELSE IF s.n \in X.lab THEN {"goto out of reach"} ELSE {"goto unknown label"}, {})
    [] s.k = "label" -> Rs(E, {}, {})
    [] s.k = "return" ->
         IF ~s.val THEN Rs(E, IF IsVoid(X.ret) \/ IsErr(X.ret) THEN {} ELSE {"return value missing"}, {})
         ELSE LET r == Ex(E, s.e) IN
           IF IsVoid(X.ret) THEN (IF IsVoid(r.t) THEN Rs(E, r.b, r.f \cup {"return void value"}) ELSE Rs(E, r.b \cup {"return value in void function"}, r.f))
           ELSE LET q == Use(Under(R(<<"void">>), r), X.ret, r, "ret") IN Rs(E, q.b, q.f)
    [] s.k = "decl" ->
         LET t == Res(E, s.t) ob == ObjBad(E, s.t)
             re == IF s.n \in E.loc THEN {"redeclaration"} ELSE {}
             D == Declare(E, s.n, VarD(IF ob = {} THEN t ELSE <<"err">>))     \* the initialiser is in its scope
             i == IF s.init THEN Val(D, s.e) ELSE R(<<"void">>)
             u == IF s.init /\ ob = {} THEN Use(i, t, i, "asn") ELSE i
             x == IF s.init /\ (IsArr(t)) THEN {"array initialiser"} ELSE {}
         IN Rs(D, ob \cup re \cup u.b, TypeFree(E, s.t) \cup u.f \cup x \cup Hides(E, s.n))

----------------------------------------------------------------------------
(* Top level.                                                              *)
Start == [v |-> [x \in {} |-> 0], tags |-> [x \in {} |-> 0], loc |-> {}]
(* ways a function body can end without returning                          *)
RECURSIVE Ends(_)
Ends(s) == CASE s.k = "return" -> "yes" [] s.k \in {"expr", "decl", "empty", "if"} -> "no"
             [] s.k = "block" -> IF s.b = <<>> THEN "no" ELSE "free" [] OTHER -> "free"
LastOf(l) == IF l = <<>> THEN "no" ELSE Ends(l[Len(l)])
SigT(E, d) == Res(E, <<"fn", d.ret, [k \in DOMAIN d.ps |-> d.ps[k].t], d.va>>)
RECURSIVE Params(_,_,_), EnumDecl(_,_,_,_), Tops(_,_,_,_)
Params(E, ps, k) == IF k > Len(ps) THEN Rs(E, {}, {})
  ELSE LET t == Res(E, ps[k].t) r == Params(Declare(E, ps[k].n, VarD(t)), ps, k+1) IN
       [r EXCEPT !.b = @ \cup ObjBad(E, ps[k].t) \cup (IF ps[k].n \in E.loc THEN {"redeclaration"} ELSE {}),
                 !.f = @ \cup TypeFree(E, ps[k].t) \cup Hides(E, ps[k].n) \cup (IF IsAgg(t) \/ IsArr(t) THEN {"aggregate parameter"} ELSE {})]
EnumDecl(E, l, k, prev) == IF k > Len(l) THEN Rs(E, {}, {})
  ELSE LET c == IF l[k].has THEN Ex(E, l[k].e) ELSE R(<<"int">>)
           v == IF l[k].has THEN Cst(E, l[k].e) ELSE prev + 1
           r == EnumDecl(Declare(E, l[k].n, [c |-> "const", t |-> <<"int">>, g |-> TRUE, v |-> v]), l, k+1, v)
       IN [r EXCEPT !.b = @ \cup c.b \cup (IF l[k].n \in E.loc THEN {"redefinition"} ELSE {}) \cup (IF l[k].has /\ c.b = {} /\ ~c.c THEN {"enumerator not constant"} ELSE {}),
                    !.f = @ \cup c.f \cup (IF l[k].has /\ ~Simple(E, l[k].e) THEN {"enumerator value"} ELSE {})]
Known(E, n, c) == Has(E.v, n) /\ E.v[n].c = c
(* constants that can initialise static data                               *)
StaticC(r, e) == r.c \/ (e.k = "addr" /\ e.a.k = "var" /\ (IsFn(r.t) \/ IsPtr(r.t)))
Decl(E, d) ==
  CASE d.k = "tag" ->
        LET in == [E EXCEPT !.tags = IF Has(@, d.n) THEN @ ELSE (d.n :> [k |-> "inc", fs |-> <<>>]) @@ @]
            N == DOMAIN d.fs
            ft == [k \in N |-> [n |-> d.fs[k].n, t |-> Res(in, d.fs[k].t)]]
            inE == [in EXCEPT !.tags[d.n] = [k |-> "inc", fs |-> <<>>]]
            fb == UNION {LET t == d.fs[k].t u == ft[k].t tb == TypeBad(inE, t) IN
                         tb \cup (IF IsErr(u) \/ tb # {} \/ Complete(inE, u) THEN {} ELSE {"member of incomplete type"}) : k \in N}
        IN Rs([E EXCEPT !.tags = (d.n :> [k |-> d.kw, fs |-> ft]) @@ @],
              fb \cup (IF Dup([k \in N |-> d.fs[k].n]) THEN {"duplicate member"} ELSE {})
                 \cup (IF Has(E.tags, d.n) THEN {"redefinition"} ELSE {}), (IF d.fs = <<>> THEN {"empty aggregate"} ELSE {}) \cup Hides([E EXCEPT !.loc = {}], d.n)
                 \cup UNION {Hides([E EXCEPT !.loc = {}], d.fs[k].n) : k \in N})
    [] d.k = "enum" -> LET r == EnumDecl(E, d.es, 1, -1) IN
        [r EXCEPT !.E.tags = (d.n :> [k |-> "en", fs |-> <<>>]) @@ @, !.b = @ \cup (IF Has(E.tags, d.n) THEN {"redefinition"} ELSE {}), !.f = @ \cup Hides([E EXCEPT !.loc = {}], d.n)]
    [] d.k = "typedef" -> LET t == Res(E, d.t) IN
        Rs(Declare(E, d.n, [c |-> "type", t |-> t, g |-> TRUE, v |-> 0]), TypeBad(E, d.t) \cup (IF d.n \in E.loc THEN {"redefinition"} ELSE {}),
           IF d.n \in E.loc /\ Known(E, d.n, "type") /\ E.v[d.n].t = t THEN {"same typedef"} ELSE IF Has(E.tags, d.n) THEN {"tag and type name"} ELSE {})
    [] d.k = "glob" -> LET t == Res(E, d.t) ob == ObjBad(E, d.t)
            i == IF d.init THEN Val(E, d.e) ELSE R(<<"void">>)
            u == IF d.init /\ ob = {} THEN Use(i, t, i, "arg") ELSE i
            nc == IF d.init /\ i.b = {} /\ ~StaticC(i, d.e) THEN {"initialiser not constant"} ELSE {}
        IN Rs(Declare(E, d.n, [c |-> "var", t |-> IF ob = {} THEN t ELSE <<"err">>, g |-> TRUE, v |-> 0]),
              ob \cup u.b \cup nc \cup (IF d.n \in E.loc /\ ~(Known(E, d.n, "var") /\ E.v[d.n].t = t /\ ~d.init) THEN {"redefinition"} ELSE {}),
              TypeFree(E, d.t) \cup u.f \cup (IF d.n \in E.loc THEN {"tentative definition"} ELSE {}) \cup (IF d.init /\ (d.e.k = "cast" \/ (t[1] = "bool" /\ i.t[1] # "bool")) THEN {"initialiser"} ELSE {}) \cup (IF d.init /\ (IsArr(t) \/ IsAgg(t)) THEN {"aggregate initialiser"} ELSE {}))
    [] d.k \in {"proto", "func"} ->
        LET sig == SigT(E, d)
            sb == TypeBad(E, d.ret) \cup UNION {ObjBad(E, d.ps[k].t) : k \in DOMAIN d.ps}
            sf == TypeFree(E, <<"fn", d.ret, [k \in DOMAIN d.ps |-> d.ps[k].t], d.va>>) \cup (IF IsArr(Res(E, d.ret)) THEN {"array returned"} ELSE {})
            clash == IF d.n \in E.loc THEN (IF ~Known(E, d.n, "fun") THEN {"redefinition"}
                                            ELSE IF IsErr(sig) \/ E.v[d.n].t = sig THEN {} ELSE {"conflicting declaration"}) ELSE {}
            twice == IF d.k = "func" /\ Known(E, d.n, "fun") /\ E.v[d.n].g THEN {"redefinition"} ELSE {}
            E1 == Declare(E, d.n, [c |-> "fun", t |-> IF IsErr(sig) THEN <<"fn", <<"err">>, <<>>, TRUE>> ELSE sig,
                                   g |-> d.k = "func" \/ (Known(E, d.n, "fun") /\ E.v[d.n].g), v |-> 0])
            mainb == IF d.n = "main" /\ ~IsErr(sig) /\ ~(sig = <<"fn", <<"int">>, <<>>, FALSE>> \/ sig = <<"fn", <<"int">>, <<<<"int">>, <<"ptr", <<"ptr", <<"char">>>>>>>>, FALSE>>) THEN {"signature of main"} ELSE {}
        IN IF d.k = "proto" THEN Rs(E1, sb \cup clash \cup mainb, sf)
           ELSE LET ret == Res(E, d.ret)
                    p == Params(Enter(E1), d.ps, 1)
                    labs == SubLabels(d.body, 1)
                    X == [ret |-> ret, loop |-> FALSE, brk |-> FALSE, goal |-> {}, lab |-> {labs[k] : k \in DOMAIN labs}]
                    r == Block(p.E, X, d.body)
                    last == IF IsVoid(ret) THEN "yes" ELSE LastOf(d.body)
                IN Rs(E1, sb \cup clash \cup twice \cup mainb \cup p.b \cup r.b \cup (IF Dup(labs) THEN {"duplicate label"} ELSE {}) \cup (IF last = "no" THEN {"falls off the end"} ELSE {}),
                      sf \cup p.f \cup r.f \cup (IF last = "free" THEN {"last statement"} ELSE {}))
    [] d.k = "assert" -> LET r == Ex(E, d.e) IN
        Rs(E, r.b \cup (IF r.b = {} /\ ~r.c THEN {"assertion not constant"} ELSE IF r.b = {} /\ Simple(E, d.e) /\ Cst(E, d.e) = 0 THEN {"assertion fails"} ELSE {}),
           r.f \cup (IF Simple(E, d.e) THEN {} ELSE {"assertion value"}))
Tops(E, l, k, r) == IF k > Len(l) THEN r
                    ELSE LET q == Decl(E, l[k]) IN Tops(q.E, l, k+1, [q EXCEPT !.b = @ \cup r.b, !.f = @ \cup r.f])
Finish(r) == [r EXCEPT !.b = @ \cup (IF Known(r.E, "main", "fun") /\ r.E.v["main"].g THEN {} ELSE {"no main"})]
Judge(P) == Finish(Tops(Start, P, 1, Rs(Start, {}, {})))
=============================================================================
