------------------------------ MODULE HeapTrace -----------------------------
(* Checks recorded histories of allocation calls against Heap.              *)
(* Event: [op, s (slot), n (size or -1 when beyond any block), a (address in *)
(*   units, 0 for NULL, -1 misaligned), pg (pages after), bad (bytes found   *)
(*   wrong in the blocks concerned)].                                        *)
EXTENDS Heap, Json, IOUtils, TLC
VARIABLES i, k, ok
Data == JsonDeserialize(IOEnv.WV_DATA)
C == Data[i]
E == C.ev[k]
vars == <<live, small, big, pages, i, k, ok>>
Init == i \in 1..Len(Data) /\ k = 1 /\ ok = TRUE /\ live = <<>> /\ small = {} /\ big = {} /\ pages = Data[i].pages
Bl(s) == live[s]
CanGrow(cl) == pages + Need(cl) <= C.limit
\* is the outcome of a request for n bytes (other blocks: Blocks) right?
Asked(n, r) ==
  IF n < 0 THEN r.a = 0 /\ r.pg = pages
  ELSE LET cl == Class(n) IN
    IF r.a = 0 THEN r.pg = pages /\ ~CanGrow(cl) /\ ~Avail(cl)
    ELSE /\ r.a > 0 /\ Placed([a |-> r.a, n |-> n], r.pg, C.base)
         /\ r.pg = pages \/ (r.pg = pages + Need(cl) /\ ~Avail(cl))
Take(s, n, r, lv) == IF r.a = 0 THEN live' = lv /\ UNCHANGED <<small, big, pages>> ELSE Give(s, [a |-> r.a, n |-> n, c |-> Class(n)], lv, small, big, r.pg)
Sbrk == /\ IF E.a = 0 THEN pages + E.n > C.limit /\ E.pg = pages ELSE E.a = pages * PAGE /\ E.pg = pages + E.n
        /\ pages' = E.pg /\ UNCHANGED <<live, small, big>>
Right ==
  CASE E.op = "m" -> Asked(E.n, E) /\ E.bad = 0
    [] E.op = "r" -> IF E.s \notin DOMAIN live THEN Asked(E.n, E) /\ E.bad = 0
                     ELSE IF E.n = 0 THEN E.a = 0 /\ E.pg = pages /\ E.bad = 0
                     ELSE IF E.n > 0 /\ Class(E.n) <= Bl(E.s).c THEN E.a = Bl(E.s).a /\ E.pg = pages /\ E.bad = 0    \* it stays where it is
                     ELSE Asked(E.n, E) /\ E.bad = 0
    [] E.op = "f" -> E.pg = pages /\ E.bad = 0
    [] E.op = "v" -> E.pg = pages /\ E.bad = 0
    [] E.op = "s" -> IF E.a = 0 THEN pages + E.n > C.limit /\ E.pg = pages ELSE E.a = pages * PAGE /\ E.pg = pages + E.n
Drop(s) == live' = Without(s) /\ big' = big \cup BigOf(Bl(s)) /\ UNCHANGED <<small, pages>>
Apply ==
  CASE E.op = "m" -> Take(E.s, E.n, E, live)
    [] E.op = "r" -> IF E.s \notin DOMAIN live THEN Take(E.s, E.n, E, live)
                     ELSE IF E.n = 0 THEN Drop(E.s)
                     ELSE IF E.n > 0 /\ Class(E.n) <= Bl(E.s).c THEN live' = [live EXCEPT ![E.s].n = E.n] /\ UNCHANGED <<small, big, pages>>
                     ELSE IF E.a = 0 THEN UNCHANGED <<live, small, big, pages>>
                     ELSE LET o == Bl(E.s) IN
                          Give(E.s, [a |-> E.a, n |-> E.n, c |-> Class(E.n)], Without(E.s), small, big \cup BigOf(o), E.pg)
    [] E.op = "f" -> IF E.s \in DOMAIN live THEN Drop(E.s) ELSE UNCHANGED <<live, small, big, pages>>
    [] E.op = "v" -> UNCHANGED <<live, small, big, pages>>
    [] E.op = "s" -> pages' = E.pg /\ UNCHANGED <<live, small, big>>
Done == PrintT(ToJson([i |-> i, k |-> k, ev |-> E, live |-> live, small |-> Cardinality(small), pages |-> pages]))
Next == /\ ok /\ k <= Len(C.ev) /\ i' = i
        /\ IF Right THEN Apply /\ k' = k + 1 /\ ok' = TRUE
           ELSE Done /\ ok' = FALSE /\ k' = k /\ UNCHANGED <<live, small, big, pages>>
Disjoint == \A s, t \in DOMAIN live : s = t \/ ~Meet(Units(live[s]), Units(live[t])) \/ live[s].n = 0 \/ live[t].n = 0
=============================================================================
