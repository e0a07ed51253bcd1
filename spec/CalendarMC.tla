----------------------------- MODULE CalendarMC -----------------------------
(* The closed forms of Calendar agree with counting day by day through one  *)
(* whole cycle, at the end of which the week starts again as well.          *)
EXTENDS Calendar
VARIABLES n, y, m, d, yd, wd
vars == <<n, y, m, d, yd, wd>>
Init == n = 0 /\ y = 0 /\ m = 0 /\ d = 1 /\ yd = 0 /\ wd = 6
Next == /\ n < CYCLE
        /\ n' = n + 1 /\ wd' = (wd + 1) % 7
        /\ IF d < MonthDays(y)[m + 1] THEN d' = d + 1 /\ yd' = yd + 1 /\ UNCHANGED <<y, m>>
           ELSE IF m < 11 THEN d' = 1 /\ m' = m + 1 /\ yd' = yd + 1 /\ UNCHANGED y
           ELSE d' = 1 /\ m' = 0 /\ yd' = 0 /\ y' = y + 1
Agree == IF n = CYCLE THEN y = 400 /\ m = 0 /\ d = 1 /\ yd = 0 /\ wd = 6
         ELSE Civil(n) = [y |-> y, m |-> m, d |-> d, yd |-> yd] /\ DayNo(y, m, d) = n /\ WeekDay(n) = wd
=============================================================================
