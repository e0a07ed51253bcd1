---------------------------- MODULE StreamTrace -----------------------------
(* Recorded histories of stream calls against Stream.  For each stream the  *)
(* set of states it may be in is carried along; a history is wrong where    *)
(* that set becomes empty.                                                  *)
(* Event: [op, s, x, y, b, ret, eof, err, d, io], io: a sequence of         *)
(*   [f, n, we, re, se, ce, oe, ch, c] for the files the host worked on     *)
(*   (ch: the content changed, to c; c = <<-1>> if there is none).        *)
EXTENDS Stream, FiniteSets, Json, IOUtils, TLC
VARIABLES i, k, ok, act, st
vars == <<i, k, ok, act, st>>
Data == JsonDeserialize(IOEnv.WV_DATA)
C == Data[i]
E == C.ev[k]
Files == DOMAIN act
Seekable(f) == f > 3
\* files 1, 2, 3 are stdin, stdout, stderr; stream slots 1, 2, 3 too
Init == /\ i \in 1..Len(Data) /\ k = 1 /\ ok = TRUE
        /\ act = [f \in 1..Len(Data[i].files) |-> Data[i].files[f]]
        /\ st = [s \in {1, 2, 3} |-> {Opened(s, s = 1, s # 1, FALSE, IF s = 3 THEN "N" ELSE IF Data[i].tty THEN "L" ELSE "F", 0)}]
Io(f) == LET h == {q \in 1..Len(E.io) : E.io[q].f = f} IN
         IF h = {} THEN NoIo(act[f]) ELSE LET q == E.io[CHOOSE x \in h : TRUE] IN
           [n |-> q.n, c |-> IF q.ch = 1 THEN q.c ELSE act[f], we |-> q.we = 1, re |-> q.re = 1, se |-> q.se = 1, ce |-> q.ce = 1, oe |-> q.oe = 1]
Slots == DOMAIN st
FileOf(s) == (CHOOSE r \in st[s] : TRUE).f
Has(m, ch) == \E q \in 1..Len(m) : m[q] = ch
\* outcomes of the operation for a state r of its stream
Out(r) ==
  LET c == act[r.f] io == Io(r.f) IN
  CASE E.op \in {"g", "G"} -> GetC(r, c, io, E.ret)
    [] E.op = "r" -> Read(r, c, io, E.x, E.y, E.ret, E.d)
    [] E.op = "s" -> GetS(r, c, io, E.x, E.ret, E.d)
    [] E.op = "u" -> UngetC(r, c, io, E.x, E.ret)
    [] E.op \in {"p", "Q"} -> PutC(r, c, io, E.x, E.ret)
    [] E.op \in {"S", "P"} -> PutS(r, c, io, E.b, E.ret)
    [] E.op = "U" -> PutS(r, c, io, E.b \o <<NL>>, E.ret)
    [] E.op = "w" -> WriteN(r, c, io, E.x, E.y, E.b, E.ret)
    [] E.op = "k" -> SeekTo(r, c, io, Target(r, c, E.x, E.y), E.ret, Seekable(r.f))
    [] E.op = "m" -> SeekTo(r, c, io, E.x, E.ret, Seekable(r.f))
    [] E.op \in {"t", "n"} -> Tell(r, c, io, E.ret, Seekable(r.f))
    [] E.op = "R" -> Rewind(r, c, io, Seekable(r.f))
    [] E.op = "f" -> FlushOp(r, c, io, E.ret)
    [] E.op = "e" -> IF Still(r, c, io) THEN {[r EXCEPT !.eof = FALSE, !.err = FALSE]} ELSE {}
    [] E.op = "b" -> IF Still(r, c, io) THEN (IF E.x \in {0, 1, 2} THEN (IF E.ret = 0 THEN {[r EXCEPT !.buf = <<"F", "L", "N">>[E.x + 1]]} ELSE {}) ELSE IF E.ret # 0 THEN {r} ELSE {}) ELSE {}
    [] E.op = "q" -> IF Still(r, c, io) THEN {r} ELSE {}
\* the indicators the program then saw
Seen(r) == r.eof = (E.eof = 1) /\ r.err = (E.err = 1)
\* is the operation one the language defines, in state r?
Defined(r) ==
  CASE E.op \in {"g", "G", "r", "s"} -> r.rd /\ MayRead(r)
    [] E.op = "u" -> r.rd /\ MayRead(r)
    [] E.op \in {"p", "Q", "P", "U"} -> r.wr /\ MayWrite(r)
    [] E.op \in {"S", "w"} -> ~r.wr \/ MayWrite(r)
    [] E.op \in {"k", "t", "n"} -> Len(r.pb) <= r.pos
    [] E.op = "f" -> r.last # "r" /\ r.wr
    [] E.op = "b" -> r.fresh
    [] OTHER -> TRUE
\* streams other than the one operated on may be drained meanwhile
OthersAfter(s) == [t \in Slots |-> IF t = s THEN {} ELSE
    IF ~\E q \in 1..Len(E.io) : E.io[q].f = FileOf(t) THEN st[t]
    ELSE UNION {Drain(r, act[r.f], Io(r.f)) : r \in st[t]}]
\* waiting for input from a terminal or unbuffered stream lets line-buffered output out first
Prompt(s, o) == IF E.op \in {"g", "G", "r", "s"} /\ (\E r \in st[s] : r.buf # "F") /\ (\E q \in 1..Len(E.io) : E.io[q].f = FileOf(s) /\ E.io[q].rd = 1)
                THEN [t \in Slots |-> IF t = s THEN o[t] ELSE {r \in o[t] : r.buf # "L" \/ ~r.wr \/ r.pend = <<>> \/ r.err}] ELSE o
ActAfter == [f \in Files |-> LET h == {q \in 1..Len(E.io) : E.io[q].f = f /\ E.io[q].ch = 1} IN IF h = {} THEN act[f] ELSE E.io[CHOOSE q \in h : TRUE].c]
\* opening file x with mode b: outcomes
Mode == E.b
Ch(m) == CASE m = "r" -> 114 [] m = "w" -> 119 [] m = "a" -> 97 [] m = "+" -> 43 [] m = "x" -> 120
OpenSet ==
  LET f == E.x io == Io(f) c == act[f] there == c # <<-1>> m == IF Mode = <<>> THEN 0 ELSE Mode[1]
      plus == Has(Mode, Ch("+")) fits == m \in {Ch("r"), Ch("w"), Ch("a")}
      may == fits /\ (there \/ m # Ch("r")) /\ ~(there /\ Has(Mode, Ch("x")) /\ m # Ch("r"))
      new == IF m = Ch("w") \/ ~there THEN <<>> ELSE c IN
  IF E.ret = 0 THEN [fine |-> (~may \/ io.oe \/ io.se) /\ (io.c = c \/ io.se), s |-> {}]
  ELSE [fine |-> may /\ io.c = new, s |-> {Opened(f, m = Ch("r") \/ plus, m # Ch("r") \/ plus, m = Ch("a"), "F", p) : p \in IF m = Ch("a") THEN {0, Len(new)} ELSE {0}}]
AfterClose == {r \in st[E.s] : IF E.op = "O" THEN Flush(r, act[r.f], Io(r.f)) # {} ELSE CloseOk(r, act[r.f], Io(r.f), E.ret)}
\* the verdict on the event and the new stream sets
Wrong == [v |-> "wrong", st |-> st]
Fine(t) == [v |-> "fine", st |-> t]
NewSt ==
  CASE E.op = "c" -> IF AfterClose = {} THEN Wrong ELSE Fine([t \in Slots \ {E.s} |-> OthersAfter(E.s)[t]])
    [] E.op = "o" -> LET o == OpenSet IN IF ~o.fine THEN Wrong ELSE IF E.ret = 0 THEN Fine(st) ELSE Fine([t \in Slots \cup {E.s} |-> IF t = E.s THEN o.s ELSE st[t]])
    [] E.op = "O" -> LET o == OpenSet IN IF AfterClose = {} \/ ~o.fine THEN Wrong
                     ELSE IF E.ret = 0 THEN Fine([t \in Slots \ {E.s} |-> st[t]]) ELSE Fine([t \in Slots |-> IF t = E.s THEN o.s ELSE st[t]])
    [] E.op = "F" -> LET fl(r) == IF r.wr /\ r.last # "r" THEN {[a EXCEPT !.last = ""] : a \in Flush(r, act[r.f], Io(r.f))} ELSE {r}
                         n == [t \in Slots |-> UNION {fl(r) : r \in st[t]}] w == \E t \in Slots : Io(FileOf(t)).we IN
                     IF (\E t \in Slots : n[t] = {}) \/ (E.ret = 0 /\ w) \/ (E.ret # 0 /\ ~w /\ ~\E t \in Slots : \E r \in st[t] : r.err) THEN Wrong ELSE Fine(n)
    [] E.op = "x" -> IF \A t \in Slots : \E r \in st[t] : Flush(r, act[r.f], Io(r.f)) # {} THEN Fine([t \in {} |-> {}]) ELSE Wrong
    [] OTHER -> IF \E r \in st[E.s] : ~Defined(r) THEN [v |-> "undefined", st |-> st]
                ELSE LET o == Prompt(E.s, OthersAfter(E.s)) n == {r \in UNION {Out(r) : r \in st[E.s]} : Seen(r)} IN
                     IF n = {} \/ (\E t \in Slots \ {E.s} : o[t] = {}) \/ E.bad # 0 THEN Wrong ELSE Fine([o EXCEPT ![E.s] = n])
Show == [s \in Slots |-> {[buf |-> r.buf, pend |-> r.pend, pos |-> r.pos, pb |-> r.pb, eof |-> r.eof, err |-> r.err, last |-> r.last] : r \in st[s]}]
Next == /\ ok /\ k <= Len(C.ev) /\ i' = i
        /\ LET n == NewSt IN
           IF n.v = "wrong" THEN PrintT(ToJson([i |-> i, k |-> k, undefined |-> 0, st |-> IF E.s \in Slots THEN Show[E.s] ELSE {}])) /\ ok' = FALSE /\ UNCHANGED <<k, act, st>>
           ELSE IF n.v = "undefined" THEN PrintT(ToJson([i |-> i, k |-> k, undefined |-> 1])) /\ ok' = FALSE /\ UNCHANGED <<k, act, st>>
           ELSE st' = n.st /\ act' = ActAfter /\ k' = k + 1 /\ ok' = TRUE
=============================================================================
