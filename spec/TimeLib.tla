------------------------------ MODULE TimeLib -------------------------------
(* Judges recorded calls of the functions of <time.h>.  Numbers come as     *)
(* <<value, cycle, day, second>>: the value when it is small, and as a time. *)
EXTENDS Calendar, Json, IOUtils, TLC
VARIABLES i, st
Data == JsonDeserialize(IOEnv.WV_DATA)
-----------------------------------------------------------------------------
I32(m, p) == LET b3 == m[p+4] IN m[p+1] + 256 * m[p+2] + 65536 * m[p+3] + 16777216 * (IF b3 > 127 THEN b3 - 256 ELSE b3)
B32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
F(x) == [s |-> I32(x, 0), mi |-> I32(x, 4), h |-> I32(x, 8), d |-> I32(x, 12), m |-> I32(x, 16), y |-> I32(x, 20), wd |-> I32(x, 24), yd |-> I32(x, 28), dst |-> I32(x, 32)]
Tm(m, p) == F(SubSeq(m, p + 1, p + 36))
Bytes(t) == B32(t.s) \o B32(t.mi) \o B32(t.h) \o B32(t.d) \o B32(t.m) \o B32(t.y) \o B32(t.wd) \o B32(t.yd) \o B32(t.dst)
Put(m, p, b) == [k \in 1..Len(m) |-> IF k > p /\ k <= p + Len(b) THEN b[k - p] ELSE m[k]]
Time(q, d, s) == [q |-> q + (d + (s \div 86400)) \div CYCLE, d |-> (d + (s \div 86400)) % CYCLE, s |-> s % 86400]
\* tm_year is 400 q + y + 100; it must be an int
YearFits(q, y) == /\ q < 5368708 \/ (q = 5368708 /\ y <= 347)
                  /\ q > -5368710 \/ (q = -5368710 /\ y >= 252)
Broken(t) == LET c == Civil(t.d) IN
  [s |-> t.s % 60, mi |-> (t.s \div 60) % 60, h |-> t.s \div 3600, d |-> c.d, m |-> c.m, y |-> 400 * (t.q + 1) + (c.y - 300), wd |-> WeekDay(t.d), yd |-> c.yd, dst |-> 0]
Fits(t) == YearFits(t.q, Civil(t.d).y)
\* the time denoted by possibly unnormalised fields
Made(f) == LET y == f.y - 100 + (f.m \div 12) n == YearStart(y % 400) + Before(y % 400, f.m % 12)
               mi == f.mi + (f.s \div 60) h == f.h + (mi \div 60) d == f.d - 1 + n + (h \div 24) IN
  [q |-> (y \div 400) + (d \div CYCLE), d |-> d % CYCLE, s |-> (h % 24) * 3600 + (mi % 60) * 60 + (f.s % 60)]
-----------------------------------------------------------------------------
(* TZ = name [offset [name]], offset = [+-]h[h][:m[m][:s[s]]] west of Greenwich *)
Dig(c) == c >= 48 /\ c <= 57
NameCh(c) == ~Dig(c) /\ c \notin {43, 44, 45}
RECURSIVE Name(_,_)
Name(z, k) == IF k <= Len(z) /\ NameCh(z[k]) THEN Name(z, k + 1) ELSE k
Num(z, k) == IF k <= Len(z) /\ Dig(z[k]) THEN (IF k < Len(z) /\ Dig(z[k+1]) THEN <<10 * (z[k] - 48) + z[k+1] - 48, k + 2>> ELSE <<z[k] - 48, k + 1>>) ELSE <<0, k>>
Colon(z, k) == k <= Len(z) /\ z[k] = 58
Blank == <<32, 32, 32>>
NameOr(z, a, b) == IF b > a THEN SubSeq(z, a, b - 1) ELSE Blank
Zone(z) ==
  LET e == Name(z, 1) neg == e <= Len(z) /\ z[e] = 45 o == IF e <= Len(z) /\ z[e] \in {43, 45} THEN e + 1 ELSE e
      h == Num(z, o)
      mi == IF Colon(z, h[2]) THEN Num(z, h[2] + 1) ELSE <<0, h[2]>>
      s == IF Colon(z, h[2]) /\ Colon(z, mi[2]) THEN Num(z, mi[2] + 1) ELSE <<0, mi[2]>>
      v == 3600 * h[1] + 60 * mi[1] + s[1] IN
  [off |-> IF neg THEN - v ELSE v, n1 |-> NameOr(z, 1, e), n2 |-> NameOr(z, s[2], Name(z, s[2]))]
Shift(t, v) == Time(t.q, t.d, t.s + v)
-----------------------------------------------------------------------------
Str(s) == [k \in 1..Len(s) |-> s[k]]
D1(n) == <<48 + n>>
D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
D3(n) == D1(n \div 100) \o D2(n % 100)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN D1(n) ELSE Dec(n \div 10) \o D1(n % 10)
D4(n) == IF n < 10000 THEN D2(n \div 100) \o D2(n % 100) ELSE Dec(n)
Pad3(n) == IF n < 10 THEN <<32, 32>> \o D1(n) ELSE <<32>> \o D2(n)
\* Sunday .. Saturday, January .. December
DAYS == <<<<83, 117, 110, 100, 97, 121>>,
  <<77, 111, 110, 100, 97, 121>>,
  <<84, 117, 101, 115, 100, 97, 121>>,
  <<87, 101, 100, 110, 101, 115, 100, 97, 121>>,
  <<84, 104, 117, 114, 115, 100, 97, 121>>,
  <<70, 114, 105, 100, 97, 121>>,
  <<83, 97, 116, 117, 114, 100, 97, 121>>>>
MONTHS == <<<<74, 97, 110, 117, 97, 114, 121>>,
  <<70, 101, 98, 114, 117, 97, 114, 121>>,
  <<77, 97, 114, 99, 104>>,
  <<65, 112, 114, 105, 108>>,
  <<77, 97, 121>>,
  <<74, 117, 110, 101>>,
  <<74, 117, 108, 121>>,
  <<65, 117, 103, 117, 115, 116>>,
  <<83, 101, 112, 116, 101, 109, 98, 101, 114>>,
  <<79, 99, 116, 111, 98, 101, 114>>,
  <<78, 111, 118, 101, 109, 98, 101, 114>>,
  <<68, 101, 99, 101, 109, 98, 101, 114>>>>
Year(t) == t.y + 1900
Week(t, first) == (t.yd + 7 - ((t.wd - first) % 7)) \div 7
RECURSIVE Fmt(_,_,_,_)
Conv(k, t, z) ==
  CASE k = 97 -> SubSeq(DAYS[t.wd + 1], 1, 3)   [] k = 65 -> DAYS[t.wd + 1]
    [] k = 98 -> SubSeq(MONTHS[t.m + 1], 1, 3)  [] k = 66 -> MONTHS[t.m + 1]
    [] k = 99 -> Fmt(<<37,97,32,37,98,32,37,100,32,37,88,32,37,89>>, 1, t, z)          \* %a %b %d %X %Y
    [] k = 100 -> D2(t.d) [] k = 72 -> D2(t.h) [] k = 73 -> D2(1 + ((t.h + 11) % 12))
    [] k = 106 -> D3(t.yd + 1) [] k = 109 -> D2(t.m + 1) [] k = 77 -> D2(t.mi)
    [] k = 112 -> IF t.h < 12 THEN <<65, 77>> ELSE <<80, 77>>
    [] k = 83 -> D2(t.s) [] k = 85 -> D2(Week(t, 0)) [] k = 87 -> D2(Week(t, 1))
    [] k = 119 -> D1(t.wd)
    [] k = 120 -> Fmt(<<37,100,46,37,109,46,37,89>>, 1, t, z)                            \* %d.%m.%Y
    [] k = 88 -> Fmt(<<37,72,58,37,77,58,37,83>>, 1, t, z)                               \* %H:%M:%S
    [] k = 121 -> D2(Year(t) % 100) [] k = 89 -> D4(Year(t))
    [] k = 90 -> IF t.dst > 0 THEN z.n2 ELSE z.n1
    [] k = 37 -> <<37>>
Fmt(f, k, t, z) == IF k > Len(f) THEN <<>>
  ELSE IF f[k] = 37 THEN Conv(f[k+1], t, z) \o Fmt(f, k + 2, t, z)
  ELSE <<f[k]>> \o Fmt(f, k + 1, t, z)
Asc(t) == SubSeq(DAYS[t.wd + 1], 1, 3) \o <<32>> \o SubSeq(MONTHS[t.m + 1], 1, 3) \o Pad3(t.d) \o <<32>> \o D2(t.h) \o <<58>> \o D2(t.mi) \o <<58>> \o D2(t.s) \o <<32>> \o Dec(Year(t)) \o <<10, 0>>
RECURSIVE CStr(_,_)
CStr(m, p) == IF m[p + 1] = 0 THEN <<>> ELSE <<m[p + 1]>> \o CStr(m, p + 1)
-----------------------------------------------------------------------------
T(x) == [q |-> x[2], d |-> x[3], s |-> x[4]]
Same(r, t) == r[2] = t.q /\ r[3] = t.d /\ r[4] = t.s
Is(c, ok, exp) == [ok |-> ok, exp |-> exp]
\* broken-down time written at p, or failure with EOVERFLOW leaving memory alone
Down(c, t, p, isnull, iserr) ==
  IF Fits(t) THEN LET e == Put(c.m, p, Bytes(Broken(t))) IN Is(c, c.n = e /\ c.r[1][1] = isnull, Broken(t))
  ELSE Is(c, c.r[1][1] = -1 /\ c.r[2][1] = iserr, "failure with EOVERFLOW")
Verdict(c) == LET a == c.a z == Zone(c.tz) IN
  IF c.t THEN Is(c, FALSE, "no trap")
  ELSE CASE c.f = "gmtime_r" -> Down(c, T(a[1]), a[2][1], a[2][1], c.e)            \* (time, position): r = result, errno
    [] c.f = "gmtime" -> Down(c, T(a[1]), a[2][1], 0, c.e)
    [] c.f = "localtime_r" -> Down(c, Shift(T(a[1]), - z.off), a[2][1], a[2][1], c.e)
    [] c.f = "localtime" -> Down(c, Shift(T(a[1]), - z.off), a[2][1], 0, c.e)
    [] c.f = "mktime" ->                                                            \* (position)
      LET w == Made(Tm(c.m, a[1][1])) t == Shift(w, z.off) IN
      IF Fits(w) THEN Is(c, Same(c.r[1], t) /\ c.n = Put(c.m, a[1][1], Bytes(Broken(w))), <<t, Broken(w)>>)
      ELSE Is(c, c.r[1][1] = -1 /\ c.n = c.m, "failure")
    [] c.f = "time" -> Is(c, Same(c.r[1], T(c.now)) /\ Same(c.r[2], T(c.now)), T(c.now))
    [] c.f = "timefail" -> Is(c, c.r[1][1] = -1 /\ c.r[2][1] = -1, "failure")
    [] c.f = "clock" -> Is(c, c.r[1] = c.clk, c.clk)
    [] c.f = "difftime" -> Is(c, c.r[1][1] = a[1][1] - a[2][1], a[1][1] - a[2][1])
    [] c.f = "tz" -> LET e == z.n1 \o <<0>> IN
      Is(c, c.r[1][1] = z.off /\ c.n = Put(Put(c.m, 0, z.n1 \o <<0>>), a[1][1], z.n2 \o <<0>>), z)
    [] c.f \in {"asctime", "asctime_r"} -> LET e == Asc(Tm(c.m, a[1][1])) IN Is(c, c.n = Put(c.m, a[2][1], e) /\ c.r[1][1] = (IF c.f = "asctime" THEN 0 ELSE a[2][1]), e)
    [] c.f \in {"ctime", "ctime_r"} -> LET e == Asc(Broken(Shift(T(a[1]), - z.off))) IN Is(c, c.n = Put(c.m, a[2][1], e) /\ c.r[1][1] = (IF c.f = "ctime" THEN 0 ELSE a[2][1]), e)
    [] c.f = "strftime" ->                                                          \* (buffer, size, format, fields)
      LET e == Fmt(CStr(c.m, a[3][1]), 1, Tm(c.m, a[4][1]), z) n == a[2][1] IN
      IF Len(e) < n THEN Is(c, c.r[1][1] = Len(e) /\ c.n = Put(c.m, a[1][1], e \o <<0>>), e)
      ELSE Is(c, c.r[1][1] = 0 /\ \A k \in 1..Len(c.m) : c.n[k] = c.m[k] \/ (k > a[1][1] /\ k <= a[1][1] + n), "0 (does not fit)")
Init == i \in 1..Len(Data) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ i' = i
        /\ LET v == Verdict(Data[i]) IN v.ok \/ PrintT(ToJson([i |-> i, exp |-> v.exp]))
=============================================================================
