------------------------------- MODULE Stream -------------------------------
(* What a stream is to the program: a file (a sequence of bytes) with one   *)
(* position.  A stream record r:                                            *)
(*   f      file               rd, wr, app  may read, may write, appends    *)
(*   buf    "F", "L" or "N": fully, line- or un-buffered                    *)
(*   pend   bytes written and not yet given to the host                     *)
(*   pos    where the next byte is read, or where pend will be written      *)
(*   pb     bytes pushed back   eof, err   indicators                       *)
(*   last   "r" or "w": what has been done since the last repositioning     *)
(*   fresh  nothing has been done yet                                       *)
(* c is the content the host holds for the file.                            *)
EXTENDS Integers, Sequences
NL == 10
MinI(x, y) == IF x < y THEN x ELSE y
\* content c with bytes b placed at p (a gap reads as zeros)
Put(c, p, b) == IF b = <<>> THEN c
                ELSE [i \in 1..(IF p + Len(b) > Len(c) THEN p + Len(b) ELSE Len(c)) |->
                       IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(c) THEN c[i] ELSE 0]
Opened(f, rd, wr, app, buf, pos) == [f |-> f, rd |-> rd, wr |-> wr, app |-> app, buf |-> buf, pend |-> <<>>, pos |-> pos, pb |-> <<>>, eof |-> FALSE, err |-> FALSE, last |-> "", fresh |-> TRUE]
At(r, c) == IF r.app THEN Len(c) ELSE r.pos                   \* where pend goes
Where(r, c) == (IF r.pend # <<>> THEN At(r, c) + Len(r.pend) ELSE r.pos) - Len(r.pb)
Meant(r, c) == Put(c, At(r, c), r.pend)                       \* what the file is meant to hold
Coming(r, c) == r.pb \o (IF r.pos < Len(c) THEN SubSeq(c, r.pos + 1, Len(c)) ELSE <<>>)
Skip(r, k) == IF k <= Len(r.pb) THEN [r EXCEPT !.pb = SubSeq(@, k + 1, Len(@))]
              ELSE [r EXCEPT !.pb = <<>>, !.pos = @ + k - Len(r.pb)]
HasNL(b) == \E i \in 1..Len(b) : b[i] = NL
\* The host's part in an operation, io: n bytes accepted by writes, c its content afterwards,
\* we, re, se, ce, oe: a write, read, seek, close, open failed
NoIo(c) == [n |-> 0, c |-> c, we |-> FALSE, re |-> FALSE, se |-> FALSE, ce |-> FALSE, oe |-> FALSE]
\* the host accepts the first io.n bytes of what is due: they land where they should, in order
Lands(r, c, all, io) == io.n <= Len(all) /\ io.c = Put(c, At(r, c), SubSeq(all, 1, io.n))
Advance(r, c, all, io) == [r EXCEPT !.pos = IF io.n > 0 THEN At(r, c) + io.n ELSE @, !.pend = SubSeq(all, io.n + 1, Len(all)), !.err = @ \/ io.we, !.fresh = FALSE]
\* outcomes of handing over bytes b, done: how many of them were reported as written.
\* After a failed host write the bytes still due may have been kept or given up - the program has been told -
\* but nothing of them is kept without everything due before it.
Write(r, c, b, io, done) ==
  LET r1 == [r EXCEPT !.pb = <<>>, !.last = "w"] all == r.pend \o b a == Advance(r1, c, all, io) IN
  IF ~Lands(r1, c, all, io) THEN {}
  ELSE IF ~io.we THEN
    IF (r.buf = "N" /\ a.pend # <<>>) \/ (r.buf = "L" /\ HasNL(a.pend)) THEN {} ELSE {a, [a EXCEPT !.eof = FALSE]}
  ELSE {[a EXCEPT !.pend = SubSeq(@, 1, j), !.eof = x] : j \in {0} \cup {q \in 1..Len(a.pend) : q + io.n >= Len(r.pend) + done}, x \in {FALSE, r.eof}}
\* outcomes of emptying the buffer
Flush(r, c, io) ==
  IF ~Lands(r, c, r.pend, io) THEN {}
  ELSE LET a == Advance(r, c, r.pend, io) IN
       IF io.we THEN {[a EXCEPT !.pend = <<>>], a} ELSE IF a.pend # <<>> THEN {} ELSE {a}
\* some of what is due may go to the host at any time
Drain(r, c, io) == IF ~Lands(r, c, r.pend, io) THEN {} ELSE LET a == Advance(r, c, r.pend, io) IN IF io.we THEN {[a EXCEPT !.pend = <<>>], a} ELSE {a}
Still(r, c, io) == io.n = 0 /\ io.c = c
\* may r be read, written now?
MayRead(r) == r.last # "w"
MayWrite(r) == r.last # "r" \/ r.eof
-----------------------------------------------------------------------------
Touched(r) == [r EXCEPT !.fresh = FALSE]
ReadState(r, k, io, ateof) == [Skip(Touched(r), k) EXCEPT !.eof = @ \/ ateof, !.err = @ \/ io.re, !.last = "r"]
\* fgetc
GetC(r, c, io, ret) ==
  IF ~Still(r, c, io) THEN {}
  ELSE LET q == Coming(r, c) IN
       IF io.re THEN (IF ret = -1 THEN {ReadState(r, 0, io, FALSE)} ELSE {})
       ELSE IF q = <<>> THEN (IF ret = -1 THEN {ReadState(r, 0, io, TRUE)} ELSE {})
       ELSE IF ret = q[1] THEN {ReadState(r, 1, io, FALSE)} ELSE {}
\* fread of cnt items of sz bytes: d the items delivered
Read(r, c, io, sz, cnt, ret, d) ==
  IF ~Still(r, c, io) THEN {}
  ELSE IF sz * cnt = 0 THEN (IF ret = 0 THEN {r} ELSE {})
  ELSE LET q == Coming(r, c) want == sz * cnt IN
       IF io.re THEN (IF ret >= 0 /\ ret < cnt /\ ret * sz <= Len(q) /\ d = SubSeq(q, 1, ret * sz)
                      THEN {ReadState(r, k, io, FALSE) : k \in ret * sz..MinI(ret * sz + sz - 1, Len(q))} ELSE {})
       ELSE LET k == MinI(want, Len(q)) IN
            IF ret = k \div sz /\ d = SubSeq(q, 1, ret * sz) THEN {ReadState(r, k, io, k < want)} ELSE {}
\* fgets into an array of sz bytes, which then holds d (238: untouched)
FirstNL(q, m) == IF \E i \in 1..m : q[i] = NL THEN CHOOSE i \in 1..m : q[i] = NL /\ \A j \in 1..i - 1 : q[j] # NL ELSE 0
GetS(r, c, io, sz, ret, d) ==
  IF ~Still(r, c, io) THEN {}
  ELSE LET q == Coming(r, c) m == MinI(sz - 1, Len(q)) n == FirstNL(q, m) k == IF n > 0 THEN n ELSE m IN
       IF io.re THEN (IF ret = 0 THEN {ReadState(r, j, io, FALSE) : j \in 0..k} ELSE {})
       ELSE IF sz > 1 /\ q = <<>> THEN (IF ret = 0 THEN {ReadState(r, 0, io, TRUE)} ELSE {})
       ELSE IF ret = 1 /\ Len(d) = sz /\ \A i \in 1..sz : d[i] = (IF i <= k THEN q[i] ELSE IF i = k + 1 THEN 0 ELSE 238)
            THEN {ReadState(r, k, io, n = 0 /\ k < sz - 1)} ELSE {}
\* ungetc: one byte at least can be pushed back
UngetC(r, c, io, x, ret) ==
  IF ~Still(r, c, io) THEN {}
  ELSE IF x = -1 THEN (IF ret = -1 THEN {r} ELSE {})
  ELSE IF ret = x % 256 THEN {[Touched(r) EXCEPT !.pb = <<x % 256>> \o @, !.eof = FALSE, !.last = "r"]}
  ELSE IF ret = -1 /\ r.pb # <<>> THEN {r} ELSE {}
\* fputc
PutC(r, c, io, x, ret) ==
  IF ret = -1 THEN (IF io.we THEN Write(r, c, <<x % 256>>, io, 0) ELSE {})
  ELSE IF ret = x % 256 /\ ~io.we THEN Write(r, c, <<x % 256>>, io, 1) ELSE {}
\* fputs, puts and fprintf("%s")
PutS(r, c, io, b, ret) ==
  IF ~r.wr THEN (IF ret < 0 /\ Still(r, c, io) THEN {r, [r EXCEPT !.err = TRUE]} ELSE {})
  ELSE IF ret < 0 THEN (IF io.we THEN Write(r, c, b, io, 0) ELSE {})
  ELSE IF ~io.we THEN Write(r, c, b, io, Len(b)) ELSE {}
\* fwrite
WriteN(r, c, io, sz, cnt, b, ret) ==
  IF ~r.wr THEN (IF ret = 0 /\ Still(r, c, io) THEN {r, [r EXCEPT !.err = TRUE]} ELSE {})
  ELSE IF sz * cnt = 0 THEN (IF ret = 0 /\ Still(r, c, io) THEN {r} ELSE {})
  ELSE IF io.we THEN (IF ret >= 0 /\ ret < cnt THEN Write(r, c, b, io, ret * sz) ELSE {})
  ELSE IF ret = cnt THEN Write(r, c, b, io, Len(b)) ELSE {}
\* fseek, fsetpos to target t
Moved(r, t) == [r EXCEPT !.pos = t, !.pb = <<>>, !.eof = FALSE, !.last = "", !.fresh = FALSE]
SeekTo(r, c, io, t, ret, seekable) ==
  IF ret = 0 THEN (IF t >= 0 /\ ~io.we THEN {Moved(a, t) : a \in Flush(r, c, io)} ELSE {})
  ELSE IF t < 0 \/ io.se \/ io.we \/ ~seekable THEN {x : x \in UNION {{a, [a EXCEPT !.eof = FALSE]} : a \in Drain(r, c, io)}} ELSE {}
Target(r, c, off, wh) == IF wh = 0 THEN off ELSE IF wh = 1 THEN Where(r, c) + off ELSE Len(Meant(r, c)) + off
\* rewind: as far as the host allows
Rewind(r, c, io, seekable) ==
  IF seekable /\ ~io.se /\ ~io.we THEN {[Moved(a, 0) EXCEPT !.err = FALSE] : a \in Flush(r, c, io)}
  ELSE UNION {{[a EXCEPT !.eof = FALSE, !.err = FALSE], [a EXCEPT !.eof = FALSE, !.err = FALSE, !.last = ""]} \cup (IF io.we THEN {[Moved(a, 0) EXCEPT !.err = FALSE]} ELSE {}) : a \in Drain(r, c, io)}
Tell(r, c, io, ret, seekable) ==
  IF ret >= 0 THEN (IF ret = Where(r, c) THEN Drain(r, c, io) ELSE {})
  ELSE IF io.se \/ io.we \/ ~seekable THEN Drain(r, c, io) ELSE {}
\* fflush
FlushOp(r, c, io, ret) ==
  IF ret = 0 THEN (IF io.we THEN {} ELSE {[a EXCEPT !.last = ""] : a \in Flush(r, c, io)})
  ELSE IF io.we \/ r.err THEN {[a EXCEPT !.last = ""] : a \in Flush(r, c, io)} ELSE {}
\* fclose: the file is left with all that was meant
CloseOk(r, c, io, ret) ==
  /\ Flush(r, c, io) # {}
  /\ IF ret = 0 THEN ~io.we /\ ~io.ce ELSE io.we \/ io.ce \/ r.err
=============================================================================
