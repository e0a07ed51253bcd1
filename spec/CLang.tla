------------------------------- MODULE CLang --------------------------------
(***************************************************************************)
(* A definitional interpreter for the C subset: types and their layout,    *)
(* byte-addressed memory, expressions, statements, activations.            *)
(* Programs are syntax trees (records with a kind field "k"), types are    *)
(* tuples: <<"int">>, <<"ptr", T>>, <<"arr", T, n>>, <<"st", tag>>,        *)
(* <<"un", tag>>, <<"fn">>, <<"void">>.                                    *)
(* The observable behaviour of a program is its sequence of events.        *)
(***************************************************************************)
EXTENDS Literals

Max(x, y) == IF x > y THEN x ELSE y
RoundUp(x, a) == ((x + a - 1) \div a) * a

----------------------------------------------------------------------------
(* Layout.  P is a program: P.tags maps tags to <<[n |-> name, t |-> type], ..>> *)
IsInt(t) == t[1] \in IntTypes
RECURSIVE AlignOf(_,_), SizeOf(_,_), MaxAlign(_,_,_), EndOf(_,_,_), MaxSize(_,_,_)
AlignOf(P, t) ==
  CASE IsInt(t) -> Width(t[1])
    [] t[1] = "float" -> 4 [] t[1] = "double" -> 8
    [] t[1] \in {"ptr", "fn"} -> 4
    [] t[1] = "arr" -> AlignOf(P, t[2])
    [] OTHER -> MaxAlign(P, P.tags[t[2]], 1)
MaxAlign(P, f, i) == IF i > Len(f) THEN 1 ELSE Max(AlignOf(P, f[i].t), MaxAlign(P, f, i+1))
(* Where the first i members of a structure end.                           *)
EndOf(P, f, i) == IF i = 0 THEN 0
                  ELSE RoundUp(EndOf(P, f, i-1), AlignOf(P, f[i].t)) + SizeOf(P, f[i].t)
MaxSize(P, f, i) == IF i > Len(f) THEN 0 ELSE Max(SizeOf(P, f[i].t), MaxSize(P, f, i+1))
SizeOf(P, t) ==
  CASE IsInt(t) -> Width(t[1])
    [] t[1] = "float" -> 4 [] t[1] = "double" -> 8
    [] t[1] \in {"ptr", "fn"} -> 4
    [] t[1] = "arr" -> t[3] * SizeOf(P, t[2])
    [] t[1] = "st" -> LET f == P.tags[t[2]] IN RoundUp(EndOf(P, f, Len(f)), AlignOf(P, t))
    [] t[1] = "un" -> LET f == P.tags[t[2]] IN RoundUp(MaxSize(P, f, 1), AlignOf(P, t))
    [] OTHER -> 1
RECURSIVE FieldIx(_,_,_)
FieldIx(f, n, i) == IF f[i].n = n THEN i ELSE FieldIx(f, n, i+1)
Offset(P, t, n) == IF t[1] = "un" THEN 0
                   ELSE LET f == P.tags[t[2]] i == FieldIx(f, n, 1) IN
                        RoundUp(EndOf(P, f, i-1), AlignOf(P, f[i].t))
FieldType(P, t, n) == LET f == P.tags[t[2]] IN f[FieldIx(f, n, 1)].t

----------------------------------------------------------------------------
(* Memory: a sequence of objects, each a sequence of bytes.  The address   *)
(* 65536*i + o denotes byte o of object i.  Addresses below 65536 denote   *)
(* functions (and 0 the null pointer).                                     *)
ObjOf(a) == a \div 65536
OffOf(a) == a % 65536
RECURSIVE Rep(_,_)
Rep(x, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 1 THEN Append(Rep(x, n-1), x) ELSE LET h == Rep(x, n \div 2) IN h \o h
LoadB(m, a, n) == SubSeq(m[ObjOf(a)], OffOf(a) + 1, OffOf(a) + n)
StoreB(m, a, bs) ==
  LET o == ObjOf(a) f == OffOf(a) IN
  [m EXCEPT ![o] = SubSeq(@, 1, f) \o bs \o SubSeq(@, f + Len(bs) + 1, Len(@))]
InBounds(m, a, n) == ObjOf(a) >= 1 /\ ObjOf(a) <= Len(m) /\ OffOf(a) + n <= Len(m[ObjOf(a)])

(* Values: [t |-> kind, b |-> bytes, p |-> pointee type or aggregate type] *)
FromMem(t, bs) == IF IsInt(t) THEN [t |-> t[1], b |-> bs]
                  ELSE IF t[1] = "ptr" THEN [t |-> "ptr", b |-> bs, p |-> t[2]]
                  ELSE [t |-> t[1], b |-> bs, p |-> t]
TypeOfVal(v) == IF v.t \in IntTypes THEN <<v.t>> ELSE IF v.t = "ptr" THEN <<"ptr", v.p>> ELSE v.p
PtrV(a, t) == [t |-> "ptr", b |-> FromNat(a, 4), p |-> t]
ConvT(v, t) ==
  IF t[1] = "ptr" THEN [t |-> "ptr", b |-> Resize(v.b, 4, FALSE), p |-> t[2]]
  ELSE IF IsInt(t) THEN
     (IF v.t = "ptr" THEN (IF t[1] = "bool" THEN Conv([t |-> "uint", b |-> v.b], "bool")
                           ELSE [t |-> t[1], b |-> Resize(v.b, Width(t[1]), FALSE)])
      ELSE Conv([t |-> v.t, b |-> v.b], t[1]))
  ELSE v
VoidV == [t |-> "void", b |-> <<>>]
ZeroOf(t) == IF IsInt(t) THEN [t |-> t[1], b |-> Zero(Width(t[1]))] ELSE PtrV(0, t[2])
ValNat(v) == IF Len(v.b) > 3 /\ v.b[4] > 125 THEN 2113929216 ELSE Nat31(v.b)      \* beyond all objects

(* Events: <<type code, bytes 1-3, bytes 4-6, bytes 7-8>> of the 8-byte image *)
TypeCode(t) == CASE t = "uint" -> 2 [] t = "long" -> 3 [] t = "ulong" -> 4 [] t = "llong" -> 5
                 [] t = "ullong" -> 6 [] t = "ptr" -> 7 [] OTHER -> 1      \* narrow types count as promoted
Pack(c, b) == <<c, b[1] + 256*b[2] + 65536*b[3], b[4] + 256*b[5] + 65536*b[6], b[7] + 256*b[8]>>
EventOf(v) == Pack(TypeCode(v.t), Resize(v.b, 8, Signed(v.t)))

(* Interpreter state: memory, events, unread tape, halted, undefined.      *)
(* n bounds the loop rounds, jumps and calls; a run that needs more is not judged. *)
StartState(tape) == [m |-> <<>>, ev |-> <<>>, tp |-> tape, h |-> FALSE, u |-> FALSE, n |-> 100000000]
Spend(s) == IF s.n = 0 \/ s.u THEN [s EXCEPT !.h = TRUE, !.u = TRUE] ELSE [s EXCEPT !.n = @ - 1]
Emit(s, e) == IF s.h THEN s ELSE [s EXCEPT !.ev = Append(@, e)]
EmitBytes(s, bs) == IF s.h THEN s ELSE [s EXCEPT !.ev = @ \o [i \in 1..Len(bs) |-> <<8, bs[i], 0, 0>>]]

IsPtr(t) == t[1] = "ptr"
(* Literals by their spelling: s is the text (without quotes), q its kind. *)
LitV(e) == CASE e.q = "int" -> IntLit(e.s) [] e.q = "chr" -> CharLit(e.s) [] OTHER -> WideCharLit(e.s)
(* Generic selection: the case of the type of the controlling expression,  *)
(* which is not evaluated; cs = <<[t |-> type, e |-> expression], ..>>.     *)
RECURSIVE TypeOf(_,_,_), GenPick(_,_,_), GenFrom(_,_,_)
GenFrom(cs, t, i) == IF cs[i].t = t \/ cs[i].t = <<"default">> THEN cs[i].e ELSE GenFrom(cs, t, i+1)
GenPick(P, e, env) == GenFrom(e.cs, TypeOf(P, e.e, env), 1)
TypeOf(P, e, env) ==
  CASE e.k = "lit" -> e.t
    [] e.k = "gen" -> TypeOf(P, GenPick(P, e, env), env)
    [] e.k = "num" -> <<LitV(e).t>>
    [] e.k = "enumc" -> <<"int">>
    [] e.k = "var" -> IF e.n \in DOMAIN env THEN env[e.n].t ELSE IF e.n \in DOMAIN P.enums THEN <<"int">> ELSE <<"fn", P.funs[e.n].ret>>
    [] e.k = "idx" -> TypeOf(P, e.a, env)[2]
    [] e.k = "deref" -> TypeOf(P, e.a, env)[2]
    [] e.k = "mem" -> FieldType(P, TypeOf(P, e.a, env), e.f)
    [] e.k = "arrow" -> FieldType(P, TypeOf(P, e.a, env)[2], e.f)
    [] e.k = "addr" -> <<"ptr", TypeOf(P, e.a, env)>>
    [] e.k = "un" -> LET t == TypeOf(P, e.a, env) IN <<IF e.op = "!" THEN "int" ELSE Promote(t[1])>>
    [] e.k = "bin" -> LET t == TypeOf(P, e.l, env) u == TypeOf(P, e.r, env) IN
         IF IsPtr(t) /\ IsPtr(u) THEN <<IF e.op = "-" THEN "long" ELSE "int">>
         ELSE IF IsPtr(t) THEN t ELSE IF IsPtr(u) THEN u ELSE <<BinType(e.op, t[1], u[1])>>
    [] e.k \in {"land", "lor", "tape", "pr", "sizeof", "alignof", "offsetof", "countof", "vacount", "spv"} -> <<"int">>
    [] e.k = "cond" -> LET t == TypeOf(P, e.a, env) u == TypeOf(P, e.b, env) IN
         IF IsInt(t) /\ IsInt(u) THEN <<Common(t[1], u[1])>> ELSE t
    [] e.k = "comma" -> TypeOf(P, e.r, env)
    [] e.k = "cast" -> e.t
    [] e.k = "asn" -> TypeOf(P, e.l, env)
    [] e.k = "inc" -> TypeOf(P, e.a, env)
    [] e.k = "call" -> P.funs[e.f].ret
    [] e.k = "callp" -> LET q == TypeOf(P, e.a, env)[2] IN IF Len(q) > 1 THEN q[2] ELSE e.t
    [] e.k = "sizeofx" \/ e.k = "sizeofu" -> <<"int">>
    [] e.k = "str" -> <<"ptr", <<"char">>>>
    [] e.k = "vaarg" -> e.t
    [] OTHER -> <<"void">>

Mk(v, s) == [v |-> v, s |-> s]
BinV(op, P, v, w) ==     \* including pointer arithmetic; index is int-like
  IF v.t = "ptr" /\ w.t = "ptr" THEN
    (IF op = "-" THEN
       LET z == SizeOf(P, v.p) d == SubB(v.b, w.b) IN [t |-> "long", b |-> DivS(d, FromNat(z, 4))[1]]
     ELSE Bin(op, [t |-> "ulong", b |-> v.b], [t |-> "ulong", b |-> w.b]))
  ELSE IF v.t = "ptr" THEN
    LET n == MulB(Resize(w.b, 4, Signed(w.t)), FromNat(SizeOf(P, v.p), 4)) IN
    [v EXCEPT !.b = IF op = "+" THEN AddB(@, n) ELSE SubB(@, n)]
  ELSE IF w.t = "ptr" THEN
    LET n == MulB(Resize(v.b, 4, Signed(v.t)), FromNat(SizeOf(P, w.p), 4)) IN [w EXCEPT !.b = AddB(@, n)]
  ELSE Bin(op, v, w)

RECURSIVE Eval(_,_,_,_), LV(_,_,_,_), Exec(_,_,_,_), Items(_,_,_,_,_,_), Loop(_,_,_,_), Call(_,_,_,_,_),
          Args(_,_,_,_,_,_), Bind(_,_,_,_,_,_), VaBytes(_,_,_)

(* lvalue: [a |-> address, t |-> type, s |-> state] *)
LV(P, e, env, s) ==
  CASE e.k = "var" -> [a |-> env[e.n].a, t |-> env[e.n].t, s |-> s]
    [] e.k = "deref" -> LET r == Eval(P, e.a, env, s) IN [a |-> ValNat(r.v), t |-> r.v.p, s |-> r.s]
    [] e.k = "idx" ->
         LET ta == TypeOf(P, e.a, env) IN
         IF ta[1] = "arr" THEN
           LET l == LV(P, e.a, env, s) r == Eval(P, e.i, env, l.s) IN
           [a |-> ValNat(BinV("+", P, PtrV(l.a, ta[2]), r.v)), t |-> ta[2], s |-> r.s]
         ELSE
           LET l == Eval(P, e.a, env, s) r == Eval(P, e.i, env, l.s) IN
           [a |-> ValNat(BinV("+", P, l.v, r.v)), t |-> l.v.p, s |-> r.s]
    [] e.k = "mem" -> LET l == LV(P, e.a, env, s) IN
                      [a |-> l.a + Offset(P, l.t, e.f), t |-> FieldType(P, l.t, e.f), s |-> l.s]
    [] e.k = "arrow" -> LET r == Eval(P, e.a, env, s) IN      \* (other operands: nothing to refer to)
                      [a |-> ValNat(r.v) + Offset(P, r.v.p, e.f), t |-> FieldType(P, r.v.p, e.f), s |-> r.s]
    [] OTHER -> [a |-> 0, t |-> TypeOf(P, e, env), s |-> [s EXCEPT !.u = TRUE]]

IsLV(e) == e.k \in {"var", "deref", "idx", "mem", "arrow"}

Eval(P, e, env, s) ==
  CASE e.k = "lit" -> Mk(FromMem(e.t, e.b), s)
    [] e.k = "num" -> LET v == LitV(e) IN IF IsUndef(v) THEN Mk(IntV(FALSE), [s EXCEPT !.u = TRUE]) ELSE Mk(v, s)
    [] e.k = "enumc" -> Mk([t |-> "int", b |-> P.enums[e.n]], s)
    [] e.k = "gen" -> Eval(P, GenPick(P, e, env), env, s)
    [] e.k = "none" -> Mk(IntV(TRUE), s)
    [] e.k = "var" /\ e.n \notin DOMAIN env /\ e.n \in DOMAIN P.enums -> Mk([t |-> "int", b |-> P.enums[e.n]], s)
    [] e.k = "var" /\ e.n \notin DOMAIN env -> Mk(PtrV(P.funs[e.n].ix, TypeOf(P, e, env)), s)        \* a function: its designator
    [] e.k = "str" -> Mk(PtrV(0, <<"char">>), [s EXCEPT !.u = TRUE])       \* addresses of string literals are not modelled
    [] e.k = "idx" /\ e.a.k = "str" ->
         LET r == Eval(P, e.i, env, s) k == ValNat(r.v) + 1 IN
         IF k \in DOMAIN e.a.b THEN Mk([t |-> "char", b |-> <<e.a.b[k]>>], r.s) ELSE Mk(IntV(FALSE), [r.s EXCEPT !.u = TRUE])
    [] e.k = "deref" /\ e.a.k = "str" -> Mk([t |-> "char", b |-> <<e.a.b[1]>>], s)
    [] e.k = "sizeofu" -> Mk([t |-> "int", b |-> FromNat(SizeOf(P, e.t), 4)], s)
    [] e.k = "sizeofx" -> Mk([t |-> "int", b |-> FromNat(SizeOf(P, TypeOf(P, e.a, env)), 4)], s)
    [] e.k = "addr" /\ e.a.k = "var" /\ e.a.n \notin DOMAIN env -> Mk(PtrV(P.funs[e.a.n].ix, TypeOf(P, e.a, env)), s)
    [] IsLV(e) -> LET l == LV(P, e, env, s) n == SizeOf(P, l.t) IN
         IF InBounds(l.s.m, l.a, n) THEN Mk(FromMem(l.t, LoadB(l.s.m, l.a, n)), l.s)
         ELSE Mk(IF IsInt(l.t) \/ IsPtr(l.t) THEN ZeroOf(l.t) ELSE FromMem(l.t, Rep(0, n)), [l.s EXCEPT !.u = TRUE])
    [] e.k = "addr" -> LET l == LV(P, e.a, env, s) IN Mk(PtrV(l.a, l.t), l.s)
    [] e.k = "fun" -> Mk(PtrV(P.funs[e.n].ix, <<"fn">>), s)
    [] e.k = "un" -> LET r == Eval(P, e.a, env, s) IN
         IF r.v.t = "ptr" THEN Mk(IntV(IsZero(r.v.b)), r.s) ELSE Mk(Un(e.op, r.v), r.s)
    [] e.k = "bin" -> LET l == Eval(P, e.l, env, s) r == Eval(P, e.r, env, l.s) v == BinV(e.op, P, l.v, r.v) IN
         IF P.na /\ l.v.t = "ptr" /\ r.v.t = "ptr" /\ ObjOf(ValNat(l.v)) # ObjOf(ValNat(r.v)) THEN Mk(ZeroOf(TypeOf(P, e, env)), [r.s EXCEPT !.u = TRUE])
         ELSE IF IsUndef(v) THEN Mk(ZeroOf(<<BinType(e.op, l.v.t, r.v.t)>>), [r.s EXCEPT !.u = TRUE]) ELSE Mk(v, r.s)
    [] e.k = "land" -> LET l == Eval(P, e.l, env, s) IN
         IF Truth(l.v) THEN LET r == Eval(P, e.r, env, l.s) IN Mk(IntV(Truth(r.v)), r.s) ELSE Mk(IntV(FALSE), l.s)
    [] e.k = "lor" -> LET l == Eval(P, e.l, env, s) IN
         IF Truth(l.v) THEN Mk(IntV(TRUE), l.s) ELSE LET r == Eval(P, e.r, env, l.s) IN Mk(IntV(Truth(r.v)), r.s)
    [] e.k = "cond" -> LET c == Eval(P, e.c, env, s)
                           r == Eval(P, IF Truth(c.v) THEN e.a ELSE e.b, env, c.s) IN
         Mk(ConvT(r.v, TypeOf(P, e, env)), r.s)
    [] e.k = "comma" -> LET l == Eval(P, e.l, env, s) IN Eval(P, e.r, env, l.s)
    [] e.k = "cast" -> LET r == Eval(P, e.a, env, s) IN
         IF e.t[1] = "void" THEN Mk(VoidV, r.s)
         ELSE IF P.na /\ (r.v.t = "ptr") # (e.t[1] = "ptr") /\ e.t[1] # "bool" THEN Mk(ZeroOf(e.t), [r.s EXCEPT !.u = TRUE])     \* depends on addresses
         ELSE Mk(ConvT(r.v, e.t), r.s)
    [] e.k = "asn" ->
         LET l == LV(P, e.l, env, s)
             n == SizeOf(P, l.t)
             r == Eval(P, e.r, env, l.s)
             old == FromMem(l.t, LoadB(r.s.m, l.a, n))
             v == IF e.op = "=" THEN r.v ELSE BinV(e.op, P, old, r.v)
         IN IF ~InBounds(r.s.m, l.a, n) \/ IsUndef(v) THEN Mk(ZeroOf(l.t), [r.s EXCEPT !.u = TRUE])
            ELSE LET w == ConvT(v, l.t) IN Mk(w, [r.s EXCEPT !.m = StoreB(@, l.a, w.b)])
    [] e.k = "inc" ->
         LET l == LV(P, e.a, env, s) n == SizeOf(P, l.t) IN
         IF ~InBounds(l.s.m, l.a, n) THEN Mk(ZeroOf(l.t), [l.s EXCEPT !.u = TRUE])
         ELSE LET old == FromMem(l.t, LoadB(l.s.m, l.a, n))
                  w == ConvT(BinV(e.op, P, old, IntV(TRUE)), l.t)
              IN Mk(IF e.post THEN old ELSE w, [l.s EXCEPT !.m = StoreB(@, l.a, w.b)])
    [] e.k = "sizeof" -> Mk([t |-> "int", b |-> FromNat(SizeOf(P, e.t), 4)], s)
    [] e.k = "alignof" -> Mk([t |-> "int", b |-> FromNat(AlignOf(P, e.t), 4)], s)
    [] e.k = "offsetof" -> Mk([t |-> "int", b |-> FromNat(Offset(P, e.t, e.f), 4)], s)
    [] e.k = "countof" -> Mk([t |-> "int", b |-> FromNat(TypeOf(P, e.a, env)[3], 4)], s)
    [] e.k = "call" -> Call(P, e.f, e.args, env, s)
    [] e.k = "callp" -> LET p == Eval(P, e.a, env, s) IN
         IF ValNat(p.v) \in DOMAIN P.order THEN Call(P, P.order[ValNat(p.v)], e.args, env, p.s)
         ELSE Mk(IF TypeOf(P, e, env)[1] = "void" THEN VoidV ELSE ZeroOf(TypeOf(P, e, env)), [p.s EXCEPT !.h = TRUE, !.u = TRUE])
    [] e.k = "emit" -> LET r == Eval(P, e.a, env, s) IN Mk(VoidV, Emit(r.s, EventOf(r.v)))
    [] e.k = "dump" -> LET l == LV(P, e.a, env, s) IN
         Mk(VoidV, EmitBytes(l.s, LoadB(l.s.m, l.a, SizeOf(P, l.t))))
    [] e.k = "pr" -> LET r == Eval(P, e.a, env, s) IN     \* probe: event, value passed through
         Mk(Conv(r.v, "int"), Emit(Emit(r.s, <<9, e.id, 0, 0>>), EventOf(Conv(r.v, "int"))))
    [] e.k = "tape" ->
         IF s.h \/ s.tp = <<>> THEN Mk(IntV(FALSE), [s EXCEPT !.h = TRUE])
         ELSE Mk([t |-> "int", b |-> FromNat(Head(s.tp), 4)], [s EXCEPT !.tp = Tail(@)])
    [] e.k = "zero" -> LET l == LV(P, e.a, env, s) n == SizeOf(P, l.t) IN
         Mk(VoidV, [l.s EXCEPT !.m = StoreB(@, l.a, Rep(0, n))])
    [] e.k = "vastart" -> Mk(VoidV, [s EXCEPT !.m = StoreB(@, env[e.n].a, FromNat(env["$va"].a, 4))])
    [] e.k = "vacount" ->       \* number of extra arguments
         Mk([t |-> "int", b |-> FromNat(Len(s.m[ObjOf(env["$va"].a)]) \div 8, 4)], s)
    [] e.k = "spv" -> Mk([t |-> "int", b |-> Zero(4)], s)     \* machine stack depth: constant within an activation
    [] e.k = "vaarg" ->
         LET a == Nat31(LoadB(s.m, env[e.n].a, 4)) n == SizeOf(P, e.t) IN
         IF ~InBounds(s.m, a, 8) THEN Mk(ZeroOf(e.t), [s EXCEPT !.u = TRUE])
         ELSE Mk(FromMem(e.t, LoadB(s.m, a, n)), [s EXCEPT !.m = StoreB(@, env[e.n].a, FromNat(a + 8, 4))])

(* Function call: arguments left to right, each parameter a fresh object.  *)
Args(P, as, i, env, s, acc) ==
  IF i > Len(as) THEN [vs |-> acc, s |-> s]
  ELSE LET r == Eval(P, as[i], env, s) IN Args(P, as, i+1, env, r.s, Append(acc, r.v))
Bind(P, ps, vs, i, env, m) ==
  IF i > Len(ps) THEN [env |-> env, m |-> m]
  ELSE LET v == ConvT(vs[i], ps[i].t) IN
       Bind(P, ps, vs, i+1, (ps[i].n :> [a |-> 65536 * (Len(m) + 1), t |-> ps[i].t]) @@ env, Append(m, v.b))
VaBytes(vs, i, acc) ==     \* extra arguments: one 8-byte slot each, default promotions
  IF i > Len(vs) THEN acc ELSE VaBytes(vs, i+1, acc \o Resize(vs[i].b, 8, Signed(vs[i].t)))
Call(P, f, as, env, s) ==
  LET d == P.funs[f]
      r == Args(P, as, 1, env, s, <<>>)
      np == Len(d.ps)
      depth == Len(r.s.m)
      b == Bind(P, d.ps, r.vs, 1, P.genv, r.s.m)
      va == IF d.va THEN VaBytes(r.vs, np + 1, <<>>) ELSE <<>>
      e2 == IF d.va THEN ("$va" :> [a |-> 65536 * (Len(b.m) + 1), t |-> <<"void">>]) @@ b.env ELSE b.env
      m2 == IF d.va THEN Append(b.m, va) ELSE b.m
      x == Items(P, d.body, 1, e2, Spend([r.s EXCEPT !.m = m2]), Len(m2))
      s2 == [x.s EXCEPT !.m = SubSeq(@, 1, depth)]
  IN IF r.s.h THEN Mk(IF d.ret[1] = "void" THEN VoidV ELSE IF IsInt(d.ret) \/ IsPtr(d.ret) THEN ZeroOf(d.ret) ELSE FromMem(d.ret, Rep(0, SizeOf(P, d.ret))), r.s)
     ELSE IF d.ret[1] = "void" THEN Mk(VoidV, s2)
     ELSE IF x.o = "r" THEN Mk(ConvT(x.v, d.ret), s2)
     ELSE Mk(IF IsInt(d.ret) \/ IsPtr(d.ret) THEN ZeroOf(d.ret) ELSE FromMem(d.ret, Rep(0, SizeOf(P, d.ret))),
             [s2 EXCEPT !.u = @ \/ ~x.s.h])

(* Statements.  Outcome o: "n" normal, "b" break, "c" continue, "r" return,*)
(* "g" goto (label l), "h" halted.                                         *)
Out(o, s) == [o |-> o, s |-> s, v |-> VoidV, l |-> ""]
RECURSIVE LabelIx(_,_,_), CaseIx(_,_,_), DefaultIx(_,_)
LabelIx(b, l, i) == IF i > Len(b) THEN 0 ELSE IF b[i].k = "label" /\ b[i].n = l THEN i ELSE LabelIx(b, l, i+1)
CaseIx(b, v, i) == IF i > Len(b) THEN 0 ELSE IF b[i].k = "case" /\ b[i].b = v THEN i ELSE CaseIx(b, v, i+1)
DefaultIx(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i].k = "default" THEN i ELSE DefaultIx(b, i+1)

(* Items b[i..] of a block whose own objects start after memory index d.   *)
Items(P, b, i, env, s, d) ==
  IF s.h THEN Out("h", s)
  ELSE IF i > Len(b) THEN Out("n", s)
  ELSE IF b[i].k = "decl" THEN
    LET t == b[i].t
        s0 == [s EXCEPT !.m = Append(@, Rep(0, SizeOf(P, t)))]
        env2 == (b[i].n :> [a |-> 65536 * Len(s0.m), t |-> t]) @@ env
        r == IF b[i].init THEN Eval(P, b[i].e, env, s) ELSE Mk(VoidV, s)
        s1 == IF b[i].init THEN [r.s EXCEPT !.m = Append(@, ConvT(r.v, t).b)] ELSE s0
    IN Items(P, b, i+1, env2, s1, d)
  ELSE LET x == Exec(P, b[i], env, s) IN
    IF x.o = "n" THEN Items(P, b, i+1, env, x.s, d)
    ELSE IF x.o = "g" /\ LabelIx(b, x.l, 1) > 0 THEN Items(P, b, LabelIx(b, x.l, 1), env, Spend(x.s), d)
    ELSE x
Body(P, b, i, env, s) ==      \* a block: its objects die at its end
  LET x == Items(P, b, i, env, s, Len(s.m)) IN [x EXCEPT !.s.m = SubSeq(@, 1, Len(s.m))]

(* Loops: w = [c |-> condition, st |-> step statement, b |-> body, first |-> test before the first round] *)
Loop(P, w, env, s) ==
  LET c == IF w.first THEN Eval(P, w.c, env, s) ELSE Mk(IntV(TRUE), s) IN
  IF c.s.h THEN Out("h", c.s)
  ELSE IF ~Truth(c.v) THEN Out("n", c.s)
  ELSE LET x == Exec(P, w.b, env, Spend(c.s)) IN
    IF x.o = "b" THEN Out("n", x.s)
    ELSE IF x.o \in {"n", "c"} THEN
      LET y == IF w.st.k = "empty" THEN x.s ELSE Eval(P, w.st.e, env, x.s).s IN
      IF y.h THEN Out("h", y) ELSE Loop(P, [w EXCEPT !.first = TRUE], env, y)
    ELSE x
RECURSIVE ForEnv(_,_,_,_)
ForEnv(l, k, env, n) ==       \* the objects declared by l[k..] follow the first n
  IF k > Len(l) THEN env ELSE ForEnv(l, k+1, (l[k].n :> [a |-> 65536 * (n + 1), t |-> l[k].t]) @@ env, n + 1)
True1 == [k |-> "lit", t |-> <<"int">>, b |-> <<1,0,0,0>>]
Exec(P, st, env, s) ==
  IF s.h THEN Out("h", s) ELSE
  CASE st.k = "expr" -> Out("n", Eval(P, st.e, env, s).s)
    [] st.k = "empty" -> Out("n", s)
    [] st.k \in {"label", "case", "default"} -> Out("n", s)
    [] st.k = "block" -> Body(P, st.b, 1, env, s)
    [] st.k = "if" -> LET c == Eval(P, st.c, env, s) IN
         IF Truth(c.v) THEN Exec(P, st.a, env, c.s) ELSE Exec(P, st.b, env, c.s)
    [] st.k = "while" -> Loop(P, [c |-> st.c, st |-> [k |-> "empty"], b |-> st.b, first |-> TRUE], env, s)
    [] st.k = "do" -> Loop(P, [c |-> st.c, st |-> [k |-> "empty"], b |-> st.b, first |-> FALSE], env, s)
    [] st.k = "for" ->
         LET x == Items(P, st.init, 1, env, s, Len(s.m)) IN
         IF st.init # <<>> /\ st.init[1].k = "decl" THEN
           LET env2 == ForEnv(st.init, 1, env, Len(s.m))
               y == Loop(P, [c |-> st.c, st |-> st.step, b |-> st.b, first |-> TRUE], env2, x.s)
           IN [y EXCEPT !.s.m = SubSeq(@, 1, Len(s.m))]
         ELSE Loop(P, [c |-> st.c, st |-> st.step, b |-> st.b, first |-> TRUE], env, x.s)
    [] st.k = "switch" ->
         LET c == Eval(P, st.e, env, s)
             v == Conv(c.v, "int").b
             j == CaseIx(st.b, v, 1)
             i == IF j > 0 THEN j ELSE DefaultIx(st.b, 1)
         IN IF i = 0 THEN Out("n", c.s)
            ELSE LET x == Body(P, st.b, i, env, c.s) IN IF x.o = "b" THEN Out("n", x.s) ELSE x
    [] st.k = "break" -> Out("b", s)
    [] st.k = "continue" -> Out("c", s)
    [] st.k = "goto" -> [o |-> "g", s |-> s, v |-> VoidV, l |-> st.n]
    [] st.k = "return" ->
         IF st.val THEN LET r == Eval(P, st.e, env, s) IN [o |-> "r", s |-> r.s, v |-> r.v, l |-> ""]
         ELSE Out("r", s)

(* Static objects: P.globals = <<[n, t, b |-> initial bytes]>> occupy the  *)
(* first memory objects; P.genv must map them accordingly (see GEnv).      *)
RECURSIVE GEnvR(_,_,_), GMemR(_,_)
GEnvR(P, i, acc) == IF i > Len(P.globals) THEN acc
  ELSE GEnvR(P, i+1, (P.globals[i].n :> [a |-> 65536 * i, t |-> P.globals[i].t]) @@ acc)
GMemR(P, i) == IF i > Len(P.globals) THEN <<>> ELSE <<P.globals[i].b>> \o GMemR(P, i+1)
EmptyEnv == [x \in {} |-> 0]
Prepare(Q) == [enums |-> EmptyEnv, na |-> FALSE, tags |-> Q.tags, funs |-> Q.funs, order |-> Q.order, genv |-> GEnvR(Q, 1, EmptyEnv)]
RunFun(Q, f, args, tape) ==     \* call f with literal arguments; the final state
  LET P == Prepare(Q) IN Call(P, f, args, P.genv, [StartState(tape) EXCEPT !.m = GMemR(Q, 1)]).s
=============================================================================
