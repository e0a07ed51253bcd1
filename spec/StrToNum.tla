----------------------------- MODULE StrToNum -----------------------------
(* The string-to-integer functions.  A case: memory m, a = <<string,        *)
(* base, 1 if an end pointer is requested>>; r = <<value, end offset or -1, *)
(* errno>> as 8-byte numbers (errno was 0 before the call).                 *)
EXTENDS ByteNum, Json, IOUtils, TLC
CONSTANT ERANGE, EINVAL
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
-----------------------------------------------------------------------------
Char(m, p) == IF p < Len(m) THEN At(m, p) ELSE 0
IsIn(c, b) == DigitValue(c) < b
RECURSIVE SkipSpace(_,_)
SkipSpace(m, p) == IF IsSpace(Char(m, p)) THEN SkipSpace(m, p + 1) ELSE p
RECURSIVE SkipDigits(_,_,_)
SkipDigits(m, p, b) == IF IsIn(Char(m, p), b) THEN SkipDigits(m, p + 1, b) ELSE p
\* the subject sequence: [b |-> base, from, to: the digits, neg, end]
Subject(m, s, base) ==
  LET p == SkipSpace(m, s)
      sgn == Char(m, p) \in {43, 45}
      q == IF sgn THEN p + 1 ELSE p
      hex == base \in {0, 16} /\ Char(m, q) = 48 /\ Char(m, q + 1) \in {88, 120} /\ IsIn(Char(m, q + 2), 16)
      b == IF base # 0 THEN base ELSE IF hex THEN 16 ELSE IF Char(m, q) = 48 THEN 8 ELSE 10
      d == IF hex THEN q + 2 ELSE q
      e == SkipDigits(m, d, b)
  IN [n |-> Number([j \in 1..e - d |-> DigitValue(At(m, d + j - 1))], b), neg |-> Char(m, p) = 45,
      any |-> e > d, end |-> IF e > d THEN e ELSE s]
Signed(f) == f \in {"strtol", "strtoll", "atoi", "atol", "atoll"}
Size(f) == IF f \in {"strtoll", "strtoull", "atoll"} THEN 8 ELSE 4
Extend(f, b) == b \o Rep(IF Signed(f) /\ Negative(b) THEN 255 ELSE 0, 8 - Len(b))
Largest(f, neg) ==
  IF ~Signed(f) THEN Rep(255, Size(f)) ELSE IF neg THEN Rep(0, Size(f) - 1) \o <<128>> ELSE Rep(255, Size(f) - 1) \o <<127>>
Num8(v) == IntBytes(v, 8)
Verdict(c) ==
  LET valid == c.a[2] = 0 \/ c.a[2] \in 2..36
      s == Subject(c.m, c.a[1], IF valid THEN c.a[2] ELSE 10)
      n == Size(c.f)
      fits == ~s.n.ov /\ IF Signed(c.f) THEN FitsSigned(s.n.v, s.neg, n) ELSE FitsUnsigned(s.n.v, n)
      w == IF s.neg THEN Negate(s.n.v) ELSE s.n.v
      v == Extend(c.f, IF fits THEN SubSeq(w, 1, n) ELSE Largest(c.f, s.neg))
      ato == c.f \in {"atoi", "atol", "atoll"}
      exp == <<v, IF c.a[3] = 1 THEN Num8(s.end) ELSE Num8(-1), Num8(IF fits THEN 0 ELSE ERANGE)>>
      ok == IF c.t \/ c.n # c.m THEN FALSE
            ELSE IF ~valid THEN c.r[1] = Zero8                \* the base has no meaning
            ELSE IF ato THEN ~fits \/ c.r[1] = v                 \* undefined when not representable
            ELSE IF ~s.any THEN c.r[1] = Zero8 /\ c.r[2] = exp[2] /\ c.r[3] \in {Num8(0), Num8(EINVAL)}
            ELSE c.r = exp
  IN [ok |-> ok, exp |-> exp]
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
