-------------------------------- MODULE Heap --------------------------------
(* The heap as the program sees it: live blocks, the memory obtained from   *)
(* the host, and which part of that memory a request may be served from.    *)
(* Addresses are in units of 16 bytes, sizes in bytes.  A block of n bytes  *)
(* occupies an extent of 2^k * 2 units (k = Class(n)) that starts one unit  *)
(* before it; extents of up to one page lie at multiples of their size, and *)
(* larger ones are whole pages.                                             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live,      \* slot -> [a |-> address, n |-> size, c |-> class]
          small,     \* pages obtained for extents of at most a page
          big,       \* <<first page, class>> of free extents larger than a page
          pages      \* size of memory in pages
CONSTANTS PAGE,      \* units in a page
          PCLASS,    \* class of a page
          SLOTS
P2(k) == 2^k
Size(k) == 2 * P2(k)                                   \* units of class k
\* smallest class whose extent holds n bytes and one unit of bookkeeping
Class(n) == LET u == ((n + 15) \div 16) + 1 IN CHOOSE k \in 0..26 : Size(k) >= u /\ (k = 0 \/ Size(k - 1) < u)
\* a block keeps the class it was placed with (c) when it shrinks
Ext(b) == [lo |-> b.a - 1, hi |-> b.a - 1 + Size(b.c)]
Units(b) == [lo |-> b.a, hi |-> b.a + ((b.n + 15) \div 16)]
Meet(x, y) == x.lo < y.hi /\ y.lo < x.hi
Blocks == {live[s] : s \in DOMAIN live}
Need(k) == IF k <= PCLASS THEN 1 ELSE P2(k - PCLASS)   \* pages obtained for class k
\* an aligned extent of class k that no live block touches
Free(p, k, o) == LET x == [lo |-> p * PAGE + o * Size(k), hi |-> p * PAGE + (o + 1) * Size(k)] IN \A b \in Blocks : ~Meet(x, Ext(b))
Avail(k) == IF k <= PCLASS THEN \E p \in small : \E o \in 0..(PAGE \div Size(k)) - 1 : Free(p, k, o)
            ELSE \E x \in big : x[2] = k
\* block b may be handed out: inside memory, away from every live block and from the program's own memory
Placed(b, pg, base) == /\ b.a > base /\ b.a + ((b.n + 15) \div 16) <= pg * PAGE
                       /\ \A x \in Blocks : ~Meet(Units(b), Units(x)) \/ b.n = 0 \/ x.n = 0
                       /\ \A x \in Blocks : b.a # x.a
FirstPage(b) == (b.a - 1) \div PAGE
\* b appears, the memory having grown to pg pages
Give(s, b, lv, sm, bg, pg) ==
  LET k == b.c IN
  /\ live' = [q \in DOMAIN lv \cup {s} |-> IF q = s THEN b ELSE lv[q]]
  /\ pages' = pg
  /\ small' = IF pg > pages /\ k <= PCLASS THEN sm \cup {pages} ELSE sm
  /\ big' = IF k > PCLASS THEN bg \ {<<FirstPage(b), k>>} ELSE bg
Without(s) == [q \in DOMAIN live \ {s} |-> live[q]]
BigOf(b) == IF b.c > PCLASS THEN {<<FirstPage(b), b.c>>} ELSE {}
=============================================================================
