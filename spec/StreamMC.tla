------------------------------ MODULE StreamMC ------------------------------
(* The buffering scheme refines Stream: a buffer of CAP cells with a next   *)
(* position and a count, filled and emptied by a host that may transfer     *)
(* short or fail.  ghost is the set of Stream states the program may assume;*)
(* it must never become empty.                                              *)
EXTENDS Stream, FiniteSets
CONSTANTS CAP, BYTES, MAXLEN, MAXF, KIND       \* KIND: "r", "w", "a" or "u" (update)
VARIABLES file, hp,                       \* the host's side
          mem, ptr, cnt, reading, writing, eof, err, ungot,
          ghost,
          faults                          \* host writes that failed, at most MAXF
hv == <<file, hp>>
bv == <<mem, ptr, cnt, reading, writing, eof, err, ungot>>
vars == <<file, hp, mem, ptr, cnt, reading, writing, eof, err, ungot, ghost, faults>>
CanRead == KIND \in {"r", "u"}
CanWrite == KIND # "r"
Files0 == UNION {[1..n -> BYTES] : n \in 0..2}
Init == /\ file \in Files0 /\ hp = 0 /\ mem = <<>> /\ ptr = 0 /\ cnt = 0
        /\ reading = (KIND = "r") /\ writing = (KIND \in {"w", "a"}) /\ eof = FALSE /\ err = FALSE /\ ungot = FALSE /\ faults = 0
        /\ ghost = {Opened(1, CanRead, CanWrite, KIND = "a", "F", 0)}
Cells(n) == SubSeq(mem, 1, n)
Set(m, k, v) == [j \in 1..(IF k > Len(m) THEN k ELSE Len(m)) |-> IF j = k THEN v ELSE m[j]]
\* the host takes the first m of the n bytes due
Put1(m) == IF KIND = "a" THEN file \o Cells(m) ELSE Put(file, hp, Cells(m))
Hp1(m) == IF m = 0 THEN hp ELSE IF KIND = "a" THEN Len(file) + m ELSE hp + m
Io(m, n) == [NoIo(Put1(m)) EXCEPT !.n = m, !.we = m < n]
Judge(s) == ghost' = {r \in s : r.eof = eof' /\ r.err = err'}
\* writing a byte
PutByte(v) ==
  /\ CanWrite /\ (\A r \in ghost : MayWrite(r)) /\ Len(file) + ptr < MAXLEN
  /\ cnt' = 0 /\ writing' = TRUE /\ reading' = FALSE /\ eof' = FALSE /\ ungot' = FALSE
  /\ IF ptr < CAP
     THEN /\ mem' = Set(mem, ptr + 1, v) /\ ptr' = ptr + 1 /\ UNCHANGED <<hp, file, err, faults>>
          /\ Judge(UNION {PutC(r, file, NoIo(file), v, v) : r \in ghost})
     ELSE \E m \in 0..ptr :
          /\ file' = Put1(m) /\ hp' = Hp1(m) /\ faults' = faults + (IF m < ptr THEN 1 ELSE 0)
          /\ IF m = ptr THEN mem' = <<v>> /\ ptr' = 1 /\ err' = err /\ Judge(UNION {PutC(r, file, Io(m, ptr), v, v) : r \in ghost})
             ELSE mem' = <<>> /\ ptr' = 0 /\ err' = TRUE /\ Judge(UNION {PutC(r, file, Io(m, ptr), v, -1) : r \in ghost})
\* reading a byte
GetByte ==
  /\ CanRead /\ (\A r \in ghost : MayRead(r))
  /\ writing' = FALSE /\ UNCHANGED <<file, faults>>
  /\ IF reading /\ cnt > 0
     THEN /\ ptr' = ptr + 1 /\ cnt' = cnt - 1 /\ UNCHANGED <<hp, mem, reading, eof, err, ungot>>
          /\ Judge(UNION {GetC(r, file, NoIo(file), mem[ptr + 1]) : r \in ghost})
     ELSE /\ ungot' = FALSE
          /\ \/ /\ ptr' = 0 /\ cnt' = 0 /\ err' = TRUE /\ eof' = eof /\ reading' = TRUE /\ UNCHANGED <<hp, mem>>
                /\ Judge(UNION {GetC(r, file, [NoIo(file) EXCEPT !.re = TRUE], -1) : r \in ghost})
             \/ /\ hp >= Len(file)
                /\ ptr' = 0 /\ cnt' = 0 /\ eof' = TRUE /\ err' = err /\ reading' = (KIND = "r") /\ UNCHANGED <<hp, mem>>
                /\ Judge(UNION {GetC(r, file, NoIo(file), -1) : r \in ghost})
             \/ \E k \in 1..MinI(CAP, Len(file) - hp) :
                /\ mem' = SubSeq(file, hp + 1, hp + k) /\ hp' = hp + k /\ ptr' = 1 /\ cnt' = k - 1 /\ reading' = TRUE /\ UNCHANGED <<eof, err>>
                /\ Judge(UNION {GetC(r, file, NoIo(file), file[hp + 1]) : r \in ghost})
Unget(v) ==
  /\ CanRead /\ (\A r \in ghost : MayRead(r)) /\ (\A r \in ghost : r.pb = <<>>) /\ faults' = faults
  /\ IF ptr = 0 /\ cnt > 0 THEN UNCHANGED bv /\ UNCHANGED hv /\ Judge(UNION {UngetC(r, file, NoIo(file), v, -1) : r \in ghost})
     ELSE LET p == IF ptr = 0 THEN 1 ELSE ptr m == IF ptr = 0 THEN Set(mem, 1, 0) ELSE mem IN
          /\ mem' = Set(m, p, v) /\ ptr' = p - 1 /\ cnt' = cnt + 1 /\ reading' = TRUE /\ writing' = FALSE /\ eof' = FALSE
          /\ ungot' = (ungot \/ ptr = 0 \/ m[p] # v) /\ UNCHANGED <<hp, file, err>>
          /\ Judge(UNION {UngetC(r, file, NoIo(file), v, v) : r \in ghost})
\* leaving the buffer before moving: writes what is due
SeekAbs(t) ==
  /\ \A r \in ghost : Len(r.pb) <= r.pos
  /\ IF reading
     THEN /\ faults' = faults
          /\ \/ LET p == t - (hp - cnt) IN
                /\ cnt > 0 /\ KIND = "r" /\ ~ungot /\ p <= cnt /\ p > -ptr
                /\ ptr' = ptr + p /\ cnt' = cnt - p /\ eof' = FALSE /\ UNCHANGED <<hp, file, mem, reading, writing, err, ungot>>
                /\ Judge(UNION {SeekTo(r, file, NoIo(file), t, 0, TRUE) : r \in ghost})
             \/ /\ hp' = t /\ ptr' = 0 /\ cnt' = 0 /\ eof' = FALSE /\ ungot' = FALSE /\ reading' = (KIND = "r") /\ UNCHANGED <<file, mem, writing, err>>
                /\ Judge(UNION {SeekTo(r, file, NoIo(file), t, 0, TRUE) : r \in ghost})
             \/ /\ UNCHANGED bv /\ UNCHANGED hv
                /\ Judge(UNION {SeekTo(r, file, [NoIo(file) EXCEPT !.se = TRUE], t, -1, TRUE) : r \in ghost})
     ELSE \E m \in 0..ptr :
          /\ file' = Put1(m) /\ faults' = faults + (IF m < ptr THEN 1 ELSE 0)
          /\ IF m < ptr THEN /\ hp' = Hp1(m) /\ mem' = <<>> /\ ptr' = 0 /\ cnt' = 0 /\ err' = TRUE /\ UNCHANGED <<reading, writing, eof, ungot>>
                             /\ Judge(UNION {SeekTo(r, file, Io(m, ptr), t, -1, TRUE) : r \in ghost})
             ELSE \/ /\ hp' = t /\ mem' = <<>> /\ ptr' = 0 /\ cnt' = 0 /\ eof' = FALSE /\ writing' = (KIND # "u") /\ UNCHANGED <<reading, err, ungot>>
                     /\ Judge(UNION {SeekTo(r, file, Io(m, ptr), t, 0, TRUE) : r \in ghost})
                  \/ /\ hp' = Hp1(m) /\ mem' = <<>> /\ ptr' = 0 /\ cnt' = 0 /\ UNCHANGED <<reading, writing, err, ungot, eof>>
                     /\ Judge(UNION {SeekTo(r, file, [Io(m, ptr) EXCEPT !.se = TRUE], t, -1, TRUE) : r \in ghost})
FlushAll ==
  /\ CanWrite /\ \A r \in ghost : r.last # "r"
  /\ \E m \in 0..ptr :
     /\ ~reading \/ m = 0
     /\ LET n == IF reading THEN 0 ELSE ptr IN
        /\ m <= n /\ file' = (IF n = 0 THEN file ELSE Put1(m)) /\ hp' = (IF n = 0 THEN hp ELSE Hp1(m)) /\ err' = (err \/ m < n) /\ faults' = faults + (IF m < n THEN 1 ELSE 0)
        /\ mem' = <<>> /\ ptr' = 0 /\ cnt' = 0 /\ writing' = (KIND # "u") /\ reading' = FALSE /\ UNCHANGED <<eof, ungot>>
        /\ Judge(UNION {FlushOp(r, file, IF n = 0 THEN NoIo(file) ELSE Io(m, n), IF err' THEN -1 ELSE 0) : r \in ghost})
Step == \/ \E v \in BYTES : PutByte(v) \/ Unget(v)
        \/ GetByte \/ FlushAll \/ \E t \in 0..3 : SeekAbs(t)
Next == Step /\ faults' <= MAXF
\* some Stream state always explains what the program saw
Explained == ghost # {}
\* what is buffered for reading, read on from the host's position, is what Stream says is coming
Mirror == reading => \E r \in ghost : Coming(r, file) = SubSeq(mem, ptr + 1, ptr + cnt) \o (IF hp < Len(file) THEN SubSeq(file, hp + 1, Len(file)) ELSE <<>>)
\* what the file is meant to hold is what the host holds plus what is buffered
Due == (~reading /\ writing) => \E r \in ghost : Meant(r, file) = (IF KIND = "a" THEN file \o Cells(ptr) ELSE Put(file, hp, Cells(ptr)))
=============================================================================
