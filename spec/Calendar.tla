------------------------------ MODULE Calendar -----------------------------
(* The proleptic Gregorian calendar, time zones of the form NAME[+-]h:m:s   *)
(* NAME, and the formatting functions of <time.h>.                          *)
(* A time is a triple of a 400-year cycle, a day in it and a second of the  *)
(* day: the year 2000 starts cycle 0.                                       *)
EXTENDS Integers, Sequences
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
CYCLE == 146097
YearStart(y) == 365 * y + ((y + 3) \div 4) - ((y + 99) \div 100) + ((y + 399) \div 400)      \* 0 <= y <= 400, y counted from 2000
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Before(_,_)
Before(y, m) == IF m = 0 THEN 0 ELSE MonthDays(y)[m] + Before(y, m - 1)                       \* months 0..11
DayNo(y, m, d) == YearStart(y) + Before(y, m) + d - 1
YearOf(n) == LET g == n \div 366 IN CHOOSE y \in g..g+2 : YearStart(y) <= n /\ n < YearStart(y + 1)
MonthOf(y, k) == CHOOSE m \in 0..11 : Before(y, m) <= k /\ k < Before(y, m) + MonthDays(y)[m + 1]
Civil(n) == LET y == YearOf(n) k == n - YearStart(y) m == MonthOf(y, k) IN [y |-> y, m |-> m, d |-> k - Before(y, m) + 1, yd |-> k]
WeekDay(n) == (n + 6) % 7                                                                      \* 1 January 2000 was a Saturday
=============================================================================
