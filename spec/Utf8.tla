-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 (RFC 3629) and the C multibyte conversions over it.  A case is one *)
(* library call on a byte memory m (see Strings.tla); wide characters are   *)
(* four little-endian bytes.  Surrogates and 10FFFF < c <= 1FFFFF are code  *)
(* points on which implementations differ; both treatments are allowed.     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
CONSTANT EILSEQ
-----------------------------------------------------------------------------
Enc(c) == CASE c < 128 -> <<c>>
            [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
            [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
Grey(c) == c \in 55296..57343 \/ c \in 1114112..2097151
\* the code point encoded by the byte sequence b, -1 if b is not an encoding.
\* Defined through Enc: a sequence is valid iff it is the encoding of its payload.
Payload(b) == CASE Len(b) = 1 -> b[1]
                [] Len(b) = 2 -> (b[1] % 32) * 64 + (b[2] % 64)
                [] Len(b) = 3 -> (b[1] % 16) * 4096 + (b[2] % 64) * 64 + (b[3] % 64)
                [] Len(b) = 4 -> (b[1] % 8) * 262144 + (b[2] % 64) * 4096 + (b[3] % 64) * 64 + (b[4] % 64)
Code(b) == LET c == Payload(b) IN IF Enc(c) = b THEN c ELSE -1
Min(x, y) == IF x < y THEN x ELSE y
\* first character among the at most n bytes at the head of b: <<code, length>>, <<-1, 0>> if none
First(b, n) ==
  LET L == {k \in 1..Min(Min(4, n), Len(b)) : Code(SubSeq(b, 1, k)) >= 0}
  IN IF L = {} THEN <<-1, 0>> ELSE LET k == CHOOSE k \in L : TRUE IN <<Code(SubSeq(b, 1, k)), k>>
W4(c) == <<c % 256, (c \div 256) % 256, (c \div 65536) % 256, c \div 16777216>>
ReadW(m, p) == m[p+1] + 256 * m[p+2] + 65536 * m[p+3] + 16777216 * (IF m[p+4] > 127 THEN m[p+4] - 256 ELSE m[p+4])
Write(m, p, b) == [k \in 1..Len(m) |-> IF k > p /\ k <= p + Len(b) THEN b[k - p] ELSE m[k]]
\* n agrees with m outside [p, p+l)
Only(m, n, p, l) == Len(n) = Len(m) /\ \A k \in 1..Len(m) : n[k] = m[k] \/ (k > p /\ k <= p + l)
From(m, p) == SubSeq(m, p + 1, Len(m))
-----------------------------------------------------------------------------
(* whole-string conversions: the state is (input position, output so far)   *)
RECURSIVE Mbs(_,_,_,_)         \* decode at most n characters: [w: codes, end: "nul"/"full"/"bad"]
Mbs(m, p, n, w) ==
  IF Len(w) = n THEN [w |-> w, end |-> "full"]
  ELSE LET f == First(From(m, p), 4) IN
    IF f[1] < 0 THEN [w |-> w, end |-> "bad"]
    ELSE IF f[1] = 0 THEN [w |-> w, end |-> "nul"]
    ELSE Mbs(m, p + f[2], n, Append(w, f[1]))
RECURSIVE Wcs(_,_,_,_)         \* encode into at most n bytes
Wcs(m, p, n, b) ==
  IF Len(b) = n THEN [b |-> b, end |-> "full"]
  ELSE LET c == ReadW(m, p) IN
    IF c = 0 THEN [b |-> b, end |-> "nul"]
    ELSE IF ~Scalar(c) THEN [b |-> b, end |-> "bad"]
    ELSE IF Len(b) + Len(Enc(c)) > n THEN [b |-> b, end |-> "full"]
    ELSE Wcs(m, p + 4, n, b \o Enc(c))
RECURSIVE Flat(_)
Flat(w) == IF w = <<>> THEN <<>> ELSE W4(Head(w)) \o Flat(Tail(w))
BIG == 100000
-----------------------------------------------------------------------------
\* r[1] is the result, r[2] errno (0 before the call)
Fail(c) == c.r[1] = -1 /\ c.r[2] = EILSEQ
Verdict(c) ==
  LET a == c.a m == c.m IN
  IF c.t THEN [ok |-> FALSE, exp |-> "no trap"]
  ELSE CASE c.f = "mbtowc" ->      \* mbtowc(p or null, s or null, n)
      IF a[2] < 0 THEN [ok |-> c.r = <<0, 0>> /\ c.n = m, exp |-> 0]
      ELSE LET f == First(From(m, a[2]), a[3])
               good == c.r = <<(IF f[1] = 0 THEN 0 ELSE f[2]), 0>> /\ c.n = (IF a[1] < 0 THEN m ELSE Write(m, a[1], W4(f[1])))
               bad == Fail(c) /\ (IF a[1] < 0 THEN c.n = m ELSE Only(m, c.n, a[1], 4))
           IN [ok |-> IF f[1] < 0 THEN bad ELSE IF Scalar(f[1]) THEN good ELSE good \/ bad, exp |-> f]
    [] c.f = "mblen" ->
      IF a[1] < 0 THEN [ok |-> c.r = <<0, 0>> /\ c.n = m, exp |-> 0]
      ELSE LET f == First(From(m, a[1]), a[2])
               good == c.r = <<(IF f[1] = 0 THEN 0 ELSE f[2]), 0>>
           IN [ok |-> c.n = m /\ (IF f[1] < 0 THEN Fail(c) ELSE IF Scalar(f[1]) THEN good ELSE good \/ Fail(c)), exp |-> f]
    [] c.f = "wctomb" ->
      IF a[1] < 0 THEN [ok |-> c.r = <<0, 0>> /\ c.n = m, exp |-> 0]
      ELSE LET w == a[2]
               good == c.n = Write(m, a[1], Enc(w)) /\ c.r = <<Len(Enc(w)), 0>>
               bad == Fail(c) /\ Only(m, c.n, a[1], 4)
           IN [ok |-> IF Scalar(w) THEN good ELSE IF Grey(w) THEN good \/ bad ELSE bad, exp |-> IF Scalar(w) THEN Enc(w) ELSE <<>>]
    [] c.f = "mbstowcs" ->
      LET n == IF a[1] < 0 THEN BIG ELSE a[3]
          x == Mbs(m, a[2], n, <<>>)
          out == Flat(x.w \o (IF x.end = "nul" THEN <<0>> ELSE <<>>))
      IN [ok |-> IF x.end = "bad" THEN Fail(c) /\ (IF a[1] < 0 THEN c.n = m ELSE Only(m, c.n, a[1], 4 * n))
                 ELSE c.r = <<Len(x.w), 0>> /\ c.n = (IF a[1] < 0 THEN m ELSE Write(m, a[1], out)), exp |-> x]
    [] c.f = "wcstombs" ->
      LET n == IF a[1] < 0 THEN BIG ELSE a[3]
          x == Wcs(m, a[2], n, <<>>)
          out == x.b \o (IF x.end = "nul" THEN <<0>> ELSE <<>>)
      IN [ok |-> IF x.end = "bad" THEN Fail(c) /\ (IF a[1] < 0 THEN c.n = m ELSE Only(m, c.n, a[1], n))
                 ELSE c.r = <<Len(x.b), 0>> /\ c.n = (IF a[1] < 0 THEN m ELSE Write(m, a[1], out)), exp |-> x]
    [] c.f = "range" ->            \* encodings of the code points a[1], a[1]+a[3], .. below a[2], concatenated
      LET K == (a[2] - a[1] + a[3] - 1) \div a[3]
          E == [k \in 1..K |-> LET e == Enc(a[1] + (k-1) * a[3]) IN e \o [j \in 1..4-Len(e) |-> 0]]
          b == [k \in 1..4*K |-> E[((k-1) \div 4) + 1][((k-1) % 4) + 1]]
      IN [ok |-> c.n = b /\ c.r = <<0>>, exp |-> "range"]
    [] c.f = "literal" ->          \* a wide string literal: m are its source characters, r the wide characters
      LET x == Mbs(m, 0, BIG, <<>>) IN [ok |-> c.r = Append(x.w, 0), exp |-> x.w]
    [] c.f = "narrow" ->           \* a narrow string literal keeps its bytes
      [ok |-> c.r = m, exp |-> m]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
