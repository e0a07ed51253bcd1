------------------------------- MODULE HeapMC -------------------------------
(* The buddy algorithm on a small heap refines Heap: blocks are taken from  *)
(* free lists by splitting and returned by merging with the free sibling,   *)
(* recognised by its class mark.  Checked: what it hands out is what Heap   *)
(* allows, free siblings never stay apart, and memory only grows when no    *)
(* suitable extent is free.                                                 *)
EXTENDS Heap, TLC
VARIABLES lists,     \* class -> set of free extents (start unit)
          mark       \* unit -> class mark left in the second unit of a free extent
CONSTANTS MAXPAGES, SHRINK
hv == <<live, small, big, pages, lists, mark>>
Init == live = <<>> /\ small = {} /\ big = {} /\ pages = 1 /\ lists = [c \in 0..PCLASS |-> {}] /\ mark = [u \in {} |-> 0]
\* all ways of taking an extent of class c: <<start, lists, mark, pages>>
RECURSIVE Pull(_,_,_,_)
Pull(c, ls, mk, pg) ==
  IF ls[c] # {} THEN {<<x, [ls EXCEPT ![c] = @ \ {x}], mk, pg>> : x \in ls[c]}
  ELSE IF c = PCLASS THEN (IF pg < MAXPAGES THEN {<<pg * PAGE, ls, mk, pg + 1>>} ELSE {})
  ELSE {<<r[1], [r[2] EXCEPT ![c] = @ \cup {r[1] + Size(c)}], [u \in DOMAIN r[3] \cup {r[1] + Size(c)} |-> IF u = r[1] + Size(c) THEN c ELSE r[3][u]], r[4]>> : r \in Pull(c + 1, ls, mk, pg)}
Used(x) == \E s \in DOMAIN live : live[s].a - 1 = x
RECURSIVE Push(_,_,_,_,_)
Push(c, x, ls, mk, usd) ==
  LET sib == IF (x \div Size(c)) % 2 = 1 THEN x - Size(c) ELSE x + Size(c) IN
  IF c < PCLASS /\ sib \notin usd /\ sib \in DOMAIN mk /\ mk[sib] = c
  THEN Push(c + 1, IF sib < x THEN sib ELSE x, [ls EXCEPT ![c] = @ \ {sib}], mk, usd)
  ELSE [ls |-> [ls EXCEPT ![c] = @ \cup {x}], mk |-> [u \in DOMAIN mk \cup {x} |-> IF u = x THEN c ELSE mk[u]]]
Malloc(s, n) ==
  LET c == Class(n) IN
  /\ s \notin DOMAIN live
  /\ \E r \in Pull(c, lists, mark, pages) :
       /\ Assert(Placed([a |-> r[1] + 1, n |-> n], r[4], 0), <<"placed", r, live>>)
       /\ Assert(r[4] = pages \/ ~Avail(c), <<"grew although free", r, live>>)
       /\ Give(s, [a |-> r[1] + 1, n |-> n, c |-> c], live, small, big, r[4]) /\ lists' = r[2] /\ mark' = r[3]
Free1(s) ==
  /\ s \in DOMAIN live
  /\ LET b == live[s] r == Push(b.c, b.a - 1, lists, mark, {live[q].a - 1 : q \in DOMAIN live \ {s}}) IN
     /\ live' = Without(s) /\ lists' = r.ls /\ mark' = r.mk /\ UNCHANGED <<small, big, pages>>
Shrink(s, n) == /\ s \in DOMAIN live /\ n < live[s].n /\ live' = [live EXCEPT ![s].n = n] /\ UNCHANGED <<small, big, pages, lists, mark>>
SIZES == {16, 48, 112, 240}
Next == \/ \E s \in SLOTS, n \in SIZES : Class(n) <= PCLASS /\ Malloc(s, n)
        \/ \E s \in SLOTS : Free1(s)
        \/ \E s \in SLOTS : SHRINK /\ Shrink(s, 16)
FreeExts == UNION {{[lo |-> x, hi |-> x + Size(c)] : x \in lists[c]} : c \in 0..PCLASS}
\* free and used extents tile the pages obtained
Tiling == /\ \A x \in FreeExts : \A b \in Blocks : ~Meet(x, Ext(b))
          /\ \A x, y \in FreeExts : x = y \/ ~Meet(x, y)
Merged == \A c \in 0..PCLASS - 1 : \A x \in lists[c] : LET sib == IF (x \div Size(c)) % 2 = 1 THEN x - Size(c) ELSE x + Size(c) IN sib \notin lists[c]
Symm == Permutations(SLOTS)
=============================================================================
