---- MODULE DirMC ----
(* The buffered directory reader: a buffer of CAP bytes is filled from a cookie with as many whole or cut
   entries as fit, entries are handed out one by one, a cut entry is fetched again into a larger buffer,
   the end is recognised by a buffer that is not full.  Whatever the sizes of the entries, the buffer size,
   the places of rewinds and seeks and of host errors: entries come out in order, each once, all of them. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MAXSIZE, HDR, CAPS, ERRS, SEEKS
VARIABLES size, cap, used, proc, base, cookie, pos, tok, out, errs, seeks
vars == <<size, cap, used, proc, base, cookie, pos, tok, out, errs, seeks>>
RECURSIVE Sum(_, _)
Sum(f, k) == IF k > N THEN 0 ELSE f[k] + Sum(f, k + 1)
Min(a, b) == IF a < b THEN a ELSE b
\* the buffer holds the listing from entry base+1, cut to used bytes; proc is a sum of whole entries
RECURSIVE Off(_, _)
Off(b, k) == IF k <= b THEN 0 ELSE size[k] + Off(b, k - 1)
At == CHOOSE k \in 0..N : k >= base /\ Off(base, k) = proc     \* the entry before proc
\* pos: the position the caller is at (specification); cookie: that of the last entry handed out
Init == /\ size \in [1..N -> HDR + 1..MAXSIZE] /\ cap \in CAPS
        /\ used = Min(cap, Sum(size, 1)) /\ proc = 0 /\ base = 0 /\ cookie = 0 /\ pos = 0 /\ tok = -1
        /\ out = "go" /\ errs = ERRS /\ seeks = SEEKS
Fill(c, b) == IF errs > 0 /\ FALSE THEN TRUE ELSE
   /\ cap' = c /\ base' = b /\ proc' = 0
   /\ used' = Min(c, Sum(size, b + 1))
Refill(c) == \/ /\ Fill(c, cookie) /\ UNCHANGED <<size, cookie, pos, tok, out, errs, seeks>>
             \/ /\ errs > 0 /\ errs' = errs - 1 /\ cap' = c /\ used' = c /\ proc' = c /\ out' = "error"
                /\ UNCHANGED <<size, base, cookie, pos, tok, seeks>>
RECURSIVE Grow(_, _)
Grow(c, need) == IF c >= need THEN c ELSE Grow(2 * c, need)
Left == used - proc
Spent == used = cap /\ proc = cap        \* after a rewind, seek or error: nothing buffered
Read == /\ out \in {"go", "entry", "error"}
        /\ IF Left < HDR
           THEN IF used < cap THEN out' = "end" /\ UNCHANGED <<size, cap, used, proc, base, cookie, pos, tok, errs, seeks>>
                ELSE Refill(cap)
           ELSE LET k == At + 1 IN
                IF Left < size[k] THEN Refill(Grow(cap, size[k]))
                ELSE /\ out' = IF k = pos + 1 THEN "entry" ELSE "wrong"
                     /\ pos' = k /\ cookie' = k /\ proc' = proc + size[k]
                     /\ UNCHANGED <<size, cap, used, base, tok, errs, seeks>>
Tell == tok = -1 /\ tok' = cookie /\ UNCHANGED <<size, cap, used, proc, base, cookie, pos, out, errs, seeks>>
Seek == /\ seeks > 0 /\ seeks' = seeks - 1 /\ out \in {"entry", "end", "error"}
        /\ \E t \in {0} \cup (IF tok < 0 THEN {} ELSE {tok}) : cookie' = t /\ pos' = t
        /\ used' = cap /\ proc' = cap /\ out' = "go" /\ UNCHANGED <<size, cap, base, tok, errs>>
Next == Read \/ Tell \/ Seek
InOrder == out # "wrong"
Complete == out = "end" => pos = N
CookieIsPos == cookie = pos
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)
Ends == <>(out = "end")
====
