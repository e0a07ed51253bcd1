------------------------------- MODULE Printf -------------------------------
(* Formatted output as a transition system.  The state is the position p in *)
(* the format, the number k of arguments consumed, the output o so far and  *)
(* the stores w made by %n.  One step copies a character or performs one    *)
(* conversion specification.                                                *)
(* A case is one call: memory m, format address a[3], buffer a[1] and its   *)
(* size a[2] (buffer functions), arguments as 8-byte little-endian values;  *)
(* observed: results r (count, then bytes of the stream), memory n.           *)
EXTENDS ByteNum, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
-----------------------------------------------------------------------------
(* conversion specifications *)
Flag(c) == c \in {45, 43, 32, 35, 48}                 \* - + space # 0
RECURSIVE SkipFlags(_,_)
SkipFlags(m, p) == IF Flag(At(m, p)) THEN SkipFlags(m, p + 1) ELSE p
RECURSIVE Num(_,_,_)
Num(m, p, v) == IF IsDigit(At(m, p)) THEN Num(m, p + 1, v * 10 + At(m, p) - 48) ELSE [p |-> p, v |-> v]
Length(m, p) ==      \* length modifier: characters, size in bytes
  CASE At(m, p) = 104 /\ At(m, p + 1) = 104 -> [p |-> p + 2, n |-> 1]
    [] At(m, p) = 104 -> [p |-> p + 1, n |-> 2]
    [] At(m, p) = 108 /\ At(m, p + 1) = 108 -> [p |-> p + 2, n |-> 8]
    [] At(m, p) = 108 -> [p |-> p + 1, n |-> 4]
    [] At(m, p) = 106 -> [p |-> p + 1, n |-> 8]
    [] At(m, p) \in {116, 122} -> [p |-> p + 1, n |-> 4]
    [] OTHER -> [p |-> p, n |-> 4]
\* the conversion specification after the % at p - 1; k arguments are consumed already
Parse(m, p, k, args) ==
  LET fe == SkipFlags(m, p)
      F(c) == \E x \in p..fe - 1 : At(m, x) = c
      star == At(m, fe) = 42
      w0 == IF star THEN [p |-> fe + 1, v |-> ToInt(args[k + 1])] ELSE Num(m, fe, 0)
      k1 == IF star THEN k + 1 ELSE k
      dot == At(m, w0.p) = 46
      pstar == dot /\ At(m, w0.p + 1) = 42
      p0 == IF pstar THEN [p |-> w0.p + 2, v |-> ToInt(args[k1 + 1])]
            ELSE IF dot THEN Num(m, w0.p + 1, 0) ELSE [p |-> w0.p, v |-> -1]
      k2 == IF pstar THEN k1 + 1 ELSE k1
      l == Length(m, p0.p)
  IN [left |-> F(45) \/ w0.v < 0, plus |-> F(43), space |-> F(32), alt |-> F(35), zero |-> F(48),
      width |-> IF w0.v < 0 THEN -w0.v ELSE w0.v, prec |-> IF p0.v < 0 THEN -1 ELSE p0.v,
      size |-> l.n, conv |-> At(m, l.p), next |-> l.p + 1, k |-> k2]
\* padding to the field width: text is prefix (sign, base) and body
Pad(s, prefix, body, zeroOk) ==
  LET n == s.width - Len(prefix) - Len(body) IN
  IF s.left THEN prefix \o body \o Rep(32, n)
  ELSE IF s.zero /\ zeroOk THEN prefix \o Rep(48, n) \o body
  ELSE Rep(32, n) \o prefix \o body
Integer(s, arg) ==
  LET signed == s.conv \in {100, 105}
      b == SubSeq(arg, 1, s.size)
      neg == signed /\ Negative(b)
      base == CASE s.conv \in {120, 88} -> 16 [] s.conv = 111 -> 8 [] s.conv = 98 -> 2 [] OTHER -> 10
      mag == IF neg THEN Negate(b) ELSE b
      ds == Digits(mag, base)
      zero == Len(ds) = 0
      d0 == [j \in 1..Len(ds) |-> DigitChar(ds[j], s.conv = 88)]
      minlen == IF s.prec < 0 THEN 1 ELSE s.prec
      d1 == Rep(48, minlen - Len(d0)) \o d0
      d2 == IF s.conv = 111 /\ s.alt /\ (Len(d1) = 0 \/ d1[1] # 48) THEN <<48>> \o d1 ELSE d1
      sign == IF neg THEN <<45>> ELSE IF ~signed THEN <<>> ELSE IF s.plus THEN <<43>> ELSE IF s.space THEN <<32>> ELSE <<>>
      pre == IF ~s.alt \/ zero THEN <<>> ELSE IF base = 16 THEN <<48, s.conv>> ELSE IF base = 2 THEN <<48, 98>> ELSE <<>>
  IN Pad(s, sign \o pre, d2, s.prec < 0)
\* at most prec characters, never looking beyond them
Str(m, p, prec) ==
  LET lim == IF prec < 0 THEN Len(m) - p ELSE Min(prec, Len(m) - p)
      z == {x \in 0..lim - 1 : At(m, p + x) = 0}
      l == IF z = {} THEN lim ELSE CHOOSE x \in z : \A y \in z : x <= y
  IN SubSeq(m, p + 1, p + l)
\* a pointer: the address in hexadecimal, all digits
Pointer(s, arg) ==
  LET b == SubSeq(arg, 1, 4)
      t == [j \in 1..8 |-> LET x == b[4 - ((j - 1) \div 2)] IN DigitChar(IF j % 2 = 1 THEN x \div 16 ELSE x % 16, TRUE)]
  IN Pad(s, <<>>, t, FALSE)
-----------------------------------------------------------------------------
S0(p) == [p |-> p, k |-> 0, o |-> <<>>, w |-> <<>>]
Step(m, args, s) ==
  IF At(m, s.p) # 37 THEN [s EXCEPT !.p = @ + 1, !.o = Append(@, At(m, s.p))]
  ELSE LET c == Parse(m, s.p + 1, s.k, args)
           arg == args[c.k + 1]
           Out(t) == [s EXCEPT !.p = c.next, !.k = c.k + 1, !.o = @ \o t]
       IN CASE c.conv \in {100, 105, 117, 120, 88, 111, 98} -> Out(Integer(c, arg))
            [] c.conv = 99 -> Out(Pad(c, <<>>, <<arg[1]>>, FALSE))
            [] c.conv = 115 -> Out(Pad(c, <<>>, Str(m, ToInt(arg), c.prec), FALSE))
            [] c.conv = 112 -> Out(Pointer(c, arg))
            [] c.conv = 110 -> [Out(<<>>) EXCEPT !.w = Append(@, [p |-> ToInt(arg), b |-> IntBytes(Len(s.o), c.size)])]
            [] c.conv = 37 -> [s EXCEPT !.p = c.next, !.o = Append(@, 37)]
RECURSIVE Run(_,_,_)
Run(m, args, s) == IF At(m, s.p) = 0 THEN s ELSE Run(m, args, Step(m, args, s))
RECURSIVE Stores(_,_,_)
Stores(m, w, j) == IF j > Len(w) THEN m ELSE Stores(Write(m, w[j].p, w[j].b), w, j + 1)
-----------------------------------------------------------------------------
Sized == {"snprintf", "vsnprintf"}
Buffer == Sized \cup {"sprintf", "vsprintf"}
Expected(c) ==
  LET s == Run(c.m, c.args, S0(c.a[3]))
      m1 == Stores(c.m, s.w, 1)
      l == IF c.f \in Sized THEN Min(Len(s.o), c.a[2] - 1) ELSE Len(s.o)
  IN [r |-> <<Len(s.o)>> \o (IF c.f \in Buffer THEN <<>> ELSE s.o),
      n |-> IF c.f \in Buffer /\ ~(c.f \in Sized /\ c.a[2] = 0) THEN Write(m1, c.a[1], SubSeq(s.o, 1, l) \o <<0>>) ELSE m1]
Verdict(c) == LET e == Expected(c) IN [ok |-> ~c.t /\ c.r = e.r /\ c.n = e.n, exp |-> e]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
