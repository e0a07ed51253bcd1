------------------------------- MODULE Scanf -------------------------------
(* Formatted input as a transition system.  The state is the position p in  *)
(* the format, the position x in the input, the number k of destinations    *)
(* used, the number n of items assigned, the stores w and, once the call    *)
(* has ended early, the set ret of admissible results.                      *)
(* A case is one call: memory m; a = <<input address, input length, format  *)
(* address>>; args: destination addresses; results r = <<value, errno>> and,*)
(* for streams, the number of characters left unread.  A store byte of -1   *)
(* stands for any value.                                                    *)
EXTENDS ByteNum, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
EOF == -1
-----------------------------------------------------------------------------
(* automata of the numeric items; 0 is "no transition" *)
IsOct(c) == c \in 48..55
IsHex(c) == DigitValue(c) < 16
Sgn(c) == c \in {43, 45}
\* states: 1 start, 2 signed, 3 leading zero, 4 prefix 0x, 5 octal digits, 6 decimal digits, 7 hexadecimal digits
IntNext(s, c, base) ==
  CASE s = 1 /\ Sgn(c) -> 2
    [] s \in {1, 2} -> IF base \in {0, 16} /\ c = 48 THEN 3
                       ELSE IF base = 8 THEN (IF IsOct(c) THEN 5 ELSE 0)
                       ELSE IF base = 16 THEN (IF IsHex(c) THEN 7 ELSE 0)
                       ELSE IF IsDigit(c) THEN 6 ELSE 0
    [] s = 3 -> IF c \in {88, 120} THEN 4 ELSE IF base = 16 THEN (IF IsHex(c) THEN 7 ELSE 0) ELSE IF IsOct(c) THEN 5 ELSE 0
    [] s = 4 -> IF IsHex(c) THEN 7 ELSE 0
    [] s = 5 -> IF IsOct(c) THEN 5 ELSE 0
    [] s = 6 -> IF IsDigit(c) THEN 6 ELSE 0
    [] s = 7 -> IF IsHex(c) THEN 7 ELSE 0
IntFinal == {3, 5, 6, 7}
\* floating point.  1 start, 2 signed, 3 leading zero, 4 integer digits, 5 point without digits, 6 fraction,
\* 7 e, 8 e sign, 9 exponent digits; 11 0x, 12 hex digits, 13 point without digits, 14 fraction;
\* 20+j: j characters of "infinity"; 30+j: j characters of "nan("; 35 ")"
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Infinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
Nan == <<110, 97, 110, 40>>
FltNext(s, c) ==
  CASE s = 1 /\ Sgn(c) -> 2
    [] s \in {1, 2} -> IF c = 48 THEN 3 ELSE IF IsDigit(c) THEN 4 ELSE IF c = 46 THEN 5
                       ELSE IF Lower(c) = 105 THEN 21 ELSE IF Lower(c) = 110 THEN 31 ELSE 0
    [] s = 3 -> IF c \in {88, 120} THEN 11 ELSE IF IsDigit(c) THEN 4 ELSE IF c = 46 THEN 6 ELSE IF Lower(c) = 101 THEN 7 ELSE 0
    [] s = 4 -> IF IsDigit(c) THEN 4 ELSE IF c = 46 THEN 6 ELSE IF Lower(c) = 101 THEN 7 ELSE 0
    [] s = 5 -> IF IsDigit(c) THEN 6 ELSE 0
    [] s = 6 -> IF IsDigit(c) THEN 6 ELSE IF Lower(c) = 101 THEN 7 ELSE 0
    [] s = 7 -> IF Sgn(c) THEN 8 ELSE IF IsDigit(c) THEN 9 ELSE 0
    [] s \in {8, 9} -> IF IsDigit(c) THEN 9 ELSE 0
    [] s = 11 -> IF IsHex(c) THEN 12 ELSE IF c = 46 THEN 13 ELSE 0
    [] s = 12 -> IF IsHex(c) THEN 12 ELSE IF c = 46 THEN 14 ELSE IF Lower(c) = 112 THEN 7 ELSE 0
    [] s = 13 -> IF IsHex(c) THEN 14 ELSE 0
    [] s = 14 -> IF IsHex(c) THEN 14 ELSE IF Lower(c) = 112 THEN 7 ELSE 0
    [] s \in 21..28 -> IF s < 28 /\ Lower(c) = Infinity[s - 19] THEN s + 1 ELSE 0
    [] s \in 31..33 -> IF Lower(c) = Nan[s - 29] THEN s + 1 ELSE 0
    [] s = 34 -> IF c = 41 THEN 35 ELSE IF DigitValue(c) < 36 \/ c = 95 THEN 34 ELSE 0
    [] s = 35 -> 0
FltFinal == {3, 4, 6, 9, 12, 14, 23, 28, 33, 35}
\* longest item from position x, at most lim characters: [n |-> characters, s |-> final state]
RECURSIVE Walk(_,_,_,_,_)   \* base -1: floating point
Walk(in, x, lim, s, base) ==
  IF lim = 0 \/ x >= Len(in) THEN [x |-> x, s |-> s]
  ELSE LET t == IF base < 0 THEN FltNext(s, in[x + 1]) ELSE IntNext(s, in[x + 1], base)
       IN IF t = 0 THEN [x |-> x, s |-> s] ELSE Walk(in, x + 1, lim - 1, t, base)
Item(in, x, e) == SubSeq(in, x + 1, e)
-----------------------------------------------------------------------------
(* values *)
DigitsOf(t) == [j \in 1..Len(t) |-> DigitValue(t[j])]
IntItem(t, base, fin) ==
  LET neg == t[1] = 45
      u == IF Sgn(t[1]) THEN Tail(t) ELSE t
      hasx == Len(u) > 1 /\ u[2] \in {88, 120}
      b == IF base # 0 THEN base ELSE IF fin = 7 THEN 16 ELSE IF fin \in {3, 5} THEN 8 ELSE 10
      n == Number(DigitsOf(IF hasx THEN SubSeq(u, 3, Len(u)) ELSE u), b)
  IN [v |-> n.v, neg |-> neg, ov |-> n.ov]
\* bytes stored into an integer of size bytes; undefined (any) when the value is not representable
IntStore(v, signed, size) ==
  LET any == Rep(-1, size) w == IF v.neg THEN Negate(v.v) ELSE v.v IN
  IF v.ov THEN any
  ELSE IF signed THEN (IF FitsSigned(v.v, v.neg, size) THEN SubSeq(w, 1, size) ELSE any)
  ELSE IF FitsUnsigned(v.v, size) /\ (~v.neg \/ size >= 4 \/ AllZero(v.v)) THEN SubSeq(w, 1, size) ELSE any
\* a decimal or hexadecimal number whose value is a short binary fraction is stored exactly; others unspecified here
Index(t, S) == Least({j \in 1..Len(t) : t[j] \in S}, 0)
RECURSIVE SmallNum(_,_,_,_)
SmallNum(ds, base, j, v) == IF j > Len(ds) THEN v ELSE IF v < 0 \/ v > 60000000 THEN -1 ELSE SmallNum(ds, base, j + 1, v * base + ds[j])
RECURSIVE DropZeros(_)
DropZeros(q) == IF q.q > 0 /\ q.q % 10 = 0 /\ q.f > 0 THEN DropZeros([q |-> q.q \div 10, f |-> q.f - 1]) ELSE q
FltStore(t, fin, size) ==
  LET neg == t[1] = 45
      u == IF Sgn(t[1]) THEN Tail(t) ELSE t
      hex == Len(u) > 1 /\ u[2] \in {88, 120}
      v == IF hex THEN SubSeq(u, 3, Len(u)) ELSE u
      ei == Index(v, IF hex THEN {80, 112} ELSE {69, 101})
      mant == IF ei = 0 THEN v ELSE SubSeq(v, 1, ei - 1)
      es == IF ei = 0 THEN <<48>> ELSE SubSeq(v, ei + 1, Len(v))
      eneg == es[1] = 45
      ev == SmallNum(DigitsOf(IF Sgn(es[1]) THEN Tail(es) ELSE es), 10, 1, 0)
      e == IF eneg THEN -ev ELSE ev
      pt == Index(mant, {46})
      ds == DigitsOf(IF pt = 0 THEN mant ELSE SubSeq(mant, 1, pt - 1) \o SubSeq(mant, pt + 1, Len(mant)))
      frac == IF pt = 0 THEN 0 ELSE Len(mant) - pt
      q == SmallNum(ds, IF hex THEN 16 ELSE 10, 1, 0)
      any == Rep(-1, size)
  IN IF fin \in {23, 28} THEN FloatBytes(neg, 8388608, (IF size = 8 THEN 1024 ELSE 128) - 23, size)
     ELSE IF fin \in {33, 35} THEN any
     ELSE IF ev < 0 \/ ev > (IF ~hex THEN 60 ELSE IF size = 8 THEN 900 ELSE 100) \/ q < 0 THEN any
     ELSE IF hex THEN (IF q < 16777216 /\ frac < 12 THEN FloatBytes(neg, q, e - 4 * frac, size) ELSE any)
     ELSE IF ~(e \in -6..6) THEN any
     ELSE LET z == DropZeros([q |-> q, f |-> IF e > frac THEN 0 ELSE frac - e])
              f == z.f
          IN IF q = 0 THEN FloatBytes(neg, 0, 0, size)
             ELSE IF e > frac THEN (IF e - frac <= 3 /\ q < 100000 /\ q * Pow(10, e - frac) < 16777216 THEN FloatBytes(neg, q * Pow(10, e - frac), 0, size) ELSE any)
             ELSE IF f <= 6 /\ z.q % Pow(5, f) = 0 /\ z.q \div Pow(5, f) < 16777216 THEN FloatBytes(neg, z.q \div Pow(5, f), -f, size)
             ELSE any
-----------------------------------------------------------------------------
(* conversion specifications *)
RECURSIVE Num(_,_,_)
Num(m, p, v) == IF IsDigit(At(m, p)) THEN Num(m, p + 1, v * 10 + At(m, p) - 48) ELSE [p |-> p, v |-> v]
Length(m, p) ==
  CASE At(m, p) = 104 /\ At(m, p + 1) = 104 -> [p |-> p + 2, n |-> 1]
    [] At(m, p) = 104 -> [p |-> p + 1, n |-> 2]
    [] At(m, p) = 108 /\ At(m, p + 1) = 108 -> [p |-> p + 2, n |-> 8]
    [] At(m, p) = 108 -> [p |-> p + 1, n |-> 4]
    [] At(m, p) = 106 -> [p |-> p + 1, n |-> 8]
    [] At(m, p) \in {116, 122} -> [p |-> p + 1, n |-> 4]
    [] OTHER -> [p |-> p, n |-> 4]
\* the scan set [...]: first character after [ (and ^) may be ]; a-b between two others is a range
RECURSIVE SetEnd(_,_)
SetEnd(m, p) == IF At(m, p) = 93 THEN p ELSE SetEnd(m, p + 1)
SetOf(m, b, e) ==
  { c \in 0..255 : \/ \E x \in b..e - 1 : At(m, x) = c /\ ~(c = 45 /\ x > b /\ x < e - 1)
                   \/ \E x \in b + 1..e - 2 : At(m, x) = 45 /\ c \in At(m, x - 1)..At(m, x + 1) }
Parse(m, p) ==
  LET sup == At(m, p) = 42
      w == Num(m, IF sup THEN p + 1 ELSE p, 0)
      l == Length(m, w.p)
      conv == At(m, l.p)
      inv == At(m, l.p + 1) = 94
      b == IF inv THEN l.p + 2 ELSE l.p + 1
      e == SetEnd(m, b + 1)
      set == SetOf(m, b, e)
  IN [sup |-> sup, width |-> w.v, size |-> l.n, long |-> At(m, w.p) = 108, conv |-> conv,
      set |-> IF conv # 91 THEN {} ELSE IF inv THEN (0..255) \ set ELSE set,
      next |-> IF conv = 91 THEN e + 1 ELSE l.p + 1]
RECURSIVE SkipSpace(_,_)
SkipSpace(in, x) == IF x < Len(in) /\ IsSpace(in[x + 1]) THEN SkipSpace(in, x + 1) ELSE x
SkipIn(in, x, lim, P(_)) ==
  LET e == IF lim < 0 THEN Len(in) ELSE Min(Len(in), x + lim) IN Least({y \in x..e - 1 : ~P(in[y + 1])}, e)
-----------------------------------------------------------------------------
S0(p) == [p |-> p, x |-> 0, k |-> 0, n |-> 0, sup |-> 0, w |-> <<>>, ret |-> {}]
Matching(s, x) == [s EXCEPT !.x = x, !.ret = {s.n}]
\* end of input before the first conversion has completed gives EOF; whether suppressed conversions count is left open
Input(s, x) == [s EXCEPT !.x = x, !.ret = IF s.n > 0 THEN {s.n} ELSE IF s.sup > 0 THEN {0, EOF} ELSE {EOF}]
Done(s, c, x, dst, bytes) ==
  IF c.sup THEN [s EXCEPT !.p = c.next, !.x = x, !.sup = @ + 1]
  ELSE [s EXCEPT !.p = c.next, !.x = x, !.k = @ + 1, !.n = @ + 1, !.w = Append(@, [p |-> dst, b |-> bytes])]
Base(c) == CASE c = 105 -> 0 [] c = 111 -> 8 [] c \in {120, 88, 112} -> 16 [] OTHER -> 10
Convert(in, args, s, c) ==
  LET dst == IF c.sup THEN 0 ELSE args[s.k + 1]
      x == IF c.conv \in {99, 91} THEN s.x ELSE SkipSpace(in, s.x)
      lim == IF c.width = 0 THEN -1 ELSE c.width
  IN IF x >= Len(in) THEN Input(s, x)
     ELSE CASE c.conv = 99 ->
            LET n == IF c.width = 0 THEN 1 ELSE c.width
                e == Min(x + n, Len(in))
            IN IF e - x = n THEN Done(s, c, e, dst, Item(in, x, e))
               ELSE [Input(s, e) EXCEPT !.ret = @ \cup {s.n}, !.w = IF c.sup THEN @ ELSE Append(@, [p |-> dst, b |-> Rep(-1, n)])]
       [] c.conv \in {115, 91} ->
            LET e == SkipIn(in, x, lim, LAMBDA ch : IF c.conv = 115 THEN ~IsSpace(ch) ELSE ch \in c.set)
            IN IF e = x THEN Matching(s, x) ELSE Done(s, c, e, dst, Item(in, x, e) \o <<0>>)
       [] c.conv \in {100, 105, 117, 120, 88, 111, 112} ->
            LET b == Base(c.conv)
                g == Walk(in, x, lim, 1, b)
            IN IF g.s \in IntFinal THEN Done(s, c, g.x, dst, IntStore(IntItem(Item(in, x, g.x), b, g.s), c.conv \in {100, 105}, c.size))
               ELSE Matching(s, g.x)
       [] c.conv \in {97, 65, 101, 69, 102, 70, 103, 71} ->
            LET g == Walk(in, x, lim, 1, -1)
            IN IF g.s \in FltFinal THEN Done(s, c, g.x, dst, FltStore(Item(in, x, g.x), g.s, IF c.long THEN 8 ELSE 4))
               ELSE Matching(s, g.x)
Step(m, in, args, s) ==
  LET f == At(m, s.p) IN
  IF IsSpace(f) THEN [s EXCEPT !.p = @ + 1, !.x = SkipSpace(in, s.x)]
  ELSE IF f # 37 \/ At(m, s.p + 1) = 37 THEN
    LET x == IF f = 37 THEN SkipSpace(in, s.x) ELSE s.x IN
    IF x >= Len(in) THEN Input(s, x)
    ELSE IF in[x + 1] = f THEN [s EXCEPT !.p = @ + (IF f = 37 THEN 2 ELSE 1), !.x = x + 1]
    ELSE Matching(s, x)
  ELSE LET c == Parse(m, s.p + 1) IN
       IF c.conv = 110 THEN [s EXCEPT !.p = c.next, !.k = @ + 1, !.w = Append(@, [p |-> args[s.k + 1], b |-> IntBytes(s.x, c.size)])]
       ELSE Convert(in, args, s, c)
RECURSIVE Run(_,_,_,_)
Run(m, in, args, s) ==
  IF s.ret # {} THEN s ELSE IF At(m, s.p) = 0 THEN [s EXCEPT !.ret = {s.n}] ELSE Run(m, in, args, Step(m, in, args, s))
RECURSIVE Stores(_,_,_)
Stores(m, w, j) == IF j > Len(w) THEN m ELSE Stores(Write(m, w[j].p, w[j].b), w, j + 1)
-----------------------------------------------------------------------------
Stream == {"fscanf", "vfscanf", "scanf", "vscanf"}
Text(c) ==   \* a string ends at its null character
  LET t == SubSeq(c.m, c.a[1] + 1, Min(Len(c.m), c.a[1] + c.a[2])) z == Index(t, {0})
  IN IF c.f \in Stream \/ z = 0 THEN t ELSE SubSeq(t, 1, z - 1)
\* strtod: the longest prefix (after white space) that is a number; e: end of the longest one found so far
RECURSIVE Longest(_,_,_,_,_)
Longest(in, x, s, e, f) ==
  IF x >= Len(in) THEN [e |-> e, f |-> f]
  ELSE LET t == FltNext(s, in[x + 1]) IN
       IF t = 0 THEN [e |-> e, f |-> f]
       ELSE IF t \in FltFinal THEN Longest(in, x + 1, t, x + 1, t) ELSE Longest(in, x + 1, t, e, f)
StrToD(c) ==
  LET in == SubSeq(c.m, c.a[1] + 1, Len(c.m)) \o <<0>>
      x == SkipSpace(in, 0)
      g == Longest(in, x, 1, x, 0)
      v == IF g.f = 0 THEN Rep(0, 8) ELSE FltStore(Item(in, x, g.e), g.f, 8)
  IN [v |-> v, e |-> IF g.f = 0 THEN c.a[1] ELSE c.a[1] + g.e]
ScanVerdict(c) ==
  LET in == Text(c)
      s == Run(c.m, in, c.args, S0(c.a[3]))
      n == Stores(c.m, s.w, 1)
      rest == IF c.f \in Stream THEN <<Len(in) - s.x>> ELSE <<>>
      ok == /\ ~c.t /\ Len(c.r) = 2 + Len(rest) /\ c.r[1] \in s.ret
            /\ \A j \in 1..Len(rest) : c.r[2 + j] = rest[j]
            /\ c.r[2] # 0     \* errno was set to a marker before the call; no library function sets it to zero
            /\ Len(n) = Len(c.n) /\ \A j \in 1..Len(n) : n[j] = -1 \/ n[j] = c.n[j]
  IN [ok |-> ok, exp |-> [ret |-> s.ret, rest |-> rest, n |-> n]]
Verdict(c) ==
  IF c.f = "strtod" THEN
    LET d == StrToD(c) IN
    [ok |-> ~c.t /\ c.n = c.m /\ Len(c.r) = 10 /\ (\A j \in 1..8 : d.v[j] = -1 \/ c.r[j] = d.v[j]) /\ c.r[9] = d.e
            /\ (d.v[1] # -1 => c.r[10] = 1), exp |-> d]
  ELSE ScanVerdict(c)
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
