----------------------------- MODULE StaticData -----------------------------
(***************************************************************************)
(* Static storage at program start: what every initialiser denotes, where  *)
(* objects may lie.  An item is one linked program with its observations:  *)
(*   P     - tags and enumerators                                          *)
(*   objs  - <<[n, t, init, kind, a, b, strs]>>: observed address a and    *)
(*           bytes b; kind "var" (modifiable, has an address), "scal"      *)
(*           (no address), "local" (automatic copy of a display)           *)
(*   lits  - string literals in code: [s, w, a, b]                         *)
(*   free  - other regions: stack frames, heap blocks [a, n]               *)
(***************************************************************************)
EXTENDS CLang, Json, IOUtils
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
Eval0(P, e) == Eval(P, e, EmptyEnv, StartState(<<>>)).v

RECURSIVE Joined(_,_,_)
Joined(parts, w, k) == IF k > Len(parts) THEN (IF w THEN Zero(4) ELSE <<0>>)
                       ELSE (IF w THEN WStrLit(parts[k]) ELSE StrLit(parts[k])) \o Joined(parts, w, k+1)
(* The bytes an initialiser gives an object of type t; the four bytes of a *)
(* pointer are left zero here and described by Ptrs.                       *)
RECURSIVE Img(_,_,_), ImgArr(_,_,_,_), ImgStr(_,_,_,_)
Fit(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Rep(0, n - Len(b))
Img(P, t, x) ==
  CASE x.k = "none" -> Rep(0, SizeOf(P, t))
    [] x.k = "e" -> ConvT(Eval0(P, x.e), t).b
    [] x.k = "flt" -> x.b
    [] x.k = "str" /\ t[1] = "arr" -> Fit(Joined(x.s, x.w, 1), SizeOf(P, t))
    [] x.k = "list" /\ t[1] = "arr" -> Fit(ImgArr(P, t[2], x.l, 1), SizeOf(P, t))
    [] x.k = "list" /\ t[1] = "st" -> Fit(ImgStr(P, P.tags[t[2]], x.l, 1), SizeOf(P, t))
    [] x.k = "list" /\ t[1] = "un" -> Fit(Img(P, P.tags[t[2]][1].t, x.l[1]), SizeOf(P, t))
    [] OTHER -> Zero(4)         \* pointers
ImgArr(P, t, l, k) == IF k > Len(l) THEN <<>> ELSE Img(P, t, l[k]) \o ImgArr(P, t, l, k+1)
ImgStr(P, f, l, k) == IF k > Len(l) THEN <<>>      \* with the padding before member k+1
  ELSE LET b == Img(P, f[k].t, l[k])
           gap == RoundUp(EndOf(P, f, k-1), AlignOf(P, f[k].t)) - EndOf(P, f, k-1)
       IN Rep(0, gap) \o b \o ImgStr(P, f, l, k+1)

RECURSIVE Ptrs(_,_,_,_), PtrsArr(_,_,_,_,_), PtrsStr(_,_,_,_,_)
Ptrs(P, t, x, o) ==
  CASE t[1] = "ptr" /\ x.k \in {"str", "obj", "null"} -> <<[o |-> o, x |-> x]>>
    [] x.k = "list" /\ t[1] = "arr" -> PtrsArr(P, t[2], x.l, 1, o)
    [] x.k = "list" /\ t[1] = "st" -> PtrsStr(P, t, x.l, 1, o)
    [] x.k = "list" /\ t[1] = "un" -> Ptrs(P, P.tags[t[2]][1].t, x.l[1], o)
    [] OTHER -> <<>>
PtrsArr(P, t, l, k, o) == IF k > Len(l) THEN <<>> ELSE Ptrs(P, t, l[k], o + (k-1) * SizeOf(P, t)) \o PtrsArr(P, t, l, k+1, o)
PtrsStr(P, t, l, k, o) == IF k > Len(l) THEN <<>>
  ELSE LET m == P.tags[t[2]][k] IN Ptrs(P, m.t, l[k], o + Offset(P, t, m.n)) \o PtrsStr(P, t, l, k+1, o)

RECURSIVE Addr(_,_,_)
Addr(objs, n, k) == IF objs[k].n = n THEN objs[k].a ELSE Addr(objs, n, k+1)
(* Pointers observed in order; strs are the bytes read through string ones *)
RECURSIVE PtrsOk(_,_,_,_,_)
PtrsOk(it, ob, ps, k, j) ==
  IF k > Len(ps) THEN ""
  ELSE LET p == ps[k] v == SubSeq(ob.b, p.o + 1, p.o + 4) IN
    CASE p.x.k = "null" -> IF IsZero(v) THEN PtrsOk(it, ob, ps, k+1, j) ELSE "null pointer"
      [] p.x.k = "obj" -> IF Small(v) /\ Nat31(v) = Addr(it.objs, p.x.n, 1) THEN PtrsOk(it, ob, ps, k+1, j) ELSE "address of " \o p.x.n
      [] OTHER -> IF ~IsZero(v) /\ ob.strs[j] = Joined(p.x.s, p.x.w, 1) THEN PtrsOk(it, ob, ps, k+1, j+1) ELSE "string"
MaskPtrs(b, ps) == [q \in 1..Len(b) |-> IF \E k \in 1..Len(ps) : q > ps[k].o /\ q <= ps[k].o + 4 THEN 0 ELSE b[q]]
ObjOk(it, ob) ==
  LET ps == Ptrs(it.P, ob.t, ob.init, 0) IN
  IF Len(ob.b) # SizeOf(it.P, ob.t) THEN "size"
  ELSE IF MaskPtrs(ob.b, ps) # Img(it.P, ob.t, ob.init) THEN "bytes"
  ELSE IF ob.kind = "var" /\ (ob.a = 0 \/ ob.a % AlignOf(it.P, ob.t) # 0) THEN "alignment"
  ELSE PtrsOk(it, ob, ps, 1, 1)

(* Placement: modifiable objects, stack and heap are pairwise disjoint and *)
(* no string literal lies in any of them.                                  *)
Regions(it) == [k \in 1..Len(it.objs) |-> IF it.objs[k].kind = "var" THEN [a |-> it.objs[k].a, n |-> Len(it.objs[k].b)] ELSE [a |-> 0, n |-> 0]] \o it.free
Apart(x, y) == x.n = 0 \/ y.n = 0 \/ x.a + x.n <= y.a \/ y.a + y.n <= x.a
Clash(it) == LET r == Regions(it) IN \E x \in 1..Len(r) : \E y \in (x+1)..Len(r) : ~Apart(r[x], r[y])
LitClash(it) == LET r == Regions(it) IN
  \E k \in 1..Len(it.lits) : \E y \in 1..Len(r) : ~Apart([a |-> it.lits[k].a, n |-> Len(it.lits[k].b)], r[y])
PtrClash(it) == LET r == Regions(it) IN
  \E k \in 1..Len(it.objs) : LET ob == it.objs[k] ps == Ptrs(it.P, ob.t, ob.init, 0) IN
    \E j \in 1..Len(ps) : ps[j].x.k = "str" /\
      LET v == Nat31(SubSeq(ob.b, ps[j].o + 1, ps[j].o + 4)) n == Len(Joined(ps[j].x.s, ps[j].x.w, 1))
      IN \E y \in 1..Len(r) : ~Apart([a |-> v, n |-> n], r[y])
LitOk(it) == \A k \in 1..Len(it.lits) : it.lits[k].b = Joined(it.lits[k].s, it.lits[k].w, 1) /\ it.lits[k].a # 0
             /\ (~it.lits[k].w \/ it.lits[k].a % 4 = 0)
Steps(it) == Len(it.objs) + 1
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st < Steps(Data[i]) /\ st' = st + 1 /\ i' = i
        /\ LET it == [Data[i] EXCEPT !.P = Prepare(Data[i].P)]
               r == IF st' <= Len(it.objs) THEN ObjOk(it, it.objs[st'])
                    ELSE IF Clash(it) THEN "objects overlap" ELSE IF LitClash(it) \/ PtrClash(it) THEN "a literal lies in an object"
                    ELSE IF ~LitOk(it) THEN "literal" ELSE ""
           IN IF r = "" THEN TRUE ELSE PrintT(ToJson([i |-> i, obj |-> st', why |-> r]))
=============================================================================
