---- MODULE PosixTrace ----
(* Recorded histories of file-system calls against Posix.tla. One state per history. *)
EXTENDS Posix, TLC, Json, IOUtils
data == JsonDeserialize(IOEnv.WV_DATA)
VARIABLES i, done
Entry(x) == [ino |-> x.ino, type |-> x.type, name |-> x.name]

\* descriptor table and directory streams after an event, and whether the event is allowed
Good(S) == [S EXCEPT !.ok = TRUE]
Bad(S) == [S EXCEPT !.ok = FALSE]
Then(ok, S) == [S EXCEPT !.ok = ok]

DirOps == {"opendir", "fdopendir", "readdir", "rewinddir", "telldir", "seekdir", "closedir", "dirfd", "scandir"}
Keep(e, S, fds) == e.fds = fds

Opened(e, S, fd) == [S EXCEPT !.D[e.slot] = [open |-> TRUE, fd |-> fd, ents |-> e.ents, pos |-> 0, stale |-> FALSE, tok |-> <<-1, -1, -1, -1>>]]
Selected(e) == IF e.f % 2 = 1 THEN SelectSeq(e.ents, LAMBDA x : x.name[1] % 2 = 1) ELSE e.ents
OpenDirH(pre, e, h) == h.c = "path_open" /\ Tgt(pre, e, h) /\ h.l = 1 /\ h.o = 2 /\ RBit(h.rb, 14) = RBit(h.inh, 14)

DirStep(pre, e, S) ==
  LET d == S.D[e.slot]  F == S.fds IN
  CASE e.op \in {"readdir", "rewinddir", "telldir", "seekdir", "closedir", "dirfd"} /\ ~d.open -> Then(e.h = <<>>, S)   \* the driver makes no call
    [] e.op = "opendir" ->
         IF Stray(pre, e) THEN Then(e.h = <<>> /\ e.ret = V(0) /\ e.err # 0 /\ ToSet(e.fds) = F, S)
         ELSE IF e.h = <<>> THEN Then(e.ret = V(0) /\ e.err \in Range(e.qe) /\ ToSet(e.fds) = F, S)
         ELSE IF ~OpenDirH(pre, e, e.h[1]) THEN Bad(S)
         ELSE IF e.h[1].e # 0 THEN Then(Len(e.h) = 1 /\ e.ret = V(0) /\ e.err = e.h[1].e /\ ToSet(e.fds) = F, S)
         ELSE IF e.rf # 0 THEN Then(/\ Len(e.h) = 2 /\ e.h[2].c = "fd_close" /\ e.h[2].fd = e.h[1].r
                                    /\ e.ret = V(0) /\ e.err \in {e.rf} \cup (IF e.h[2].e = 0 THEN {} ELSE {e.h[2].e})
                                    /\ ToSet(e.fds) \in {F, F \cup (IF e.h[2].e = 0 THEN {} ELSE {e.h[1].r})}, [S EXCEPT !.fds = ToSet(e.fds)])
         ELSE [Then(Len(e.h) = 1 /\ e.ret = V(1) /\ ToSet(e.fds) = F \cup {e.h[1].r}, Opened(e, S, e.h[1].r)) EXCEPT !.fds = ToSet(e.fds)]
    [] e.op = "fdopendir" ->
         IF e.rf # 0 THEN Then(e.h = <<>> /\ e.ret = V(0) /\ e.err = e.rf /\ ToSet(e.fds) = F, S)
         ELSE Then(e.h = <<>> /\ e.ret = V(1) /\ ToSet(e.fds) = F, Opened(e, S, e.fd))
    [] e.op = "readdir" ->
         IF e.h # <<>> \/ ToSet(e.fds) # F THEN Bad(S)
         ELSE IF e.rf # 0 THEN Then(e.ret = V(0) /\ e.err = e.rf, S)
         ELSE IF d.stale \/ e.chg THEN Then(TRUE, [S EXCEPT !.D[e.slot].stale = TRUE])
         ELSE IF d.pos = Len(d.ents) THEN Then(e.ret = V(0) /\ e.err = 0, S)
         ELSE Then(e.ret = V(1) /\ e.list = <<d.ents[d.pos + 1]>>, [S EXCEPT !.D[e.slot].pos = d.pos + 1])
    [] e.op = "rewinddir" -> Then(e.h = <<>> /\ ToSet(e.fds) = F, [S EXCEPT !.D[e.slot] = [@ EXCEPT !.pos = 0, !.stale = FALSE, !.ents = e.ents, !.tok = <<-1, -1, -1, -1>>]])
    [] e.op = "telldir" -> Then(e.h = <<>> /\ ToSet(e.fds) = F, [S EXCEPT !.D[e.slot].tok[e.f + 1] = IF d.stale \/ e.chg THEN -1 ELSE d.pos])
    [] e.op = "seekdir" -> Then(e.h = <<>> /\ ToSet(e.fds) = F, IF d.stale \/ e.chg \/ d.tok[e.f + 1] < 0 THEN [S EXCEPT !.D[e.slot].stale = TRUE]
                                              ELSE [S EXCEPT !.D[e.slot].pos = d.tok[e.f + 1]])
    [] e.op = "closedir" -> LET T == [S EXCEPT !.D[e.slot] = NoDir, !.fds = ToSet(e.fds)] IN
         Then(/\ Len(e.h) = 1 /\ e.h[1].c = "fd_close" /\ e.h[1].fd = d.fd
              /\ IF e.h[1].e = 0 THEN e.ret = V(0) /\ ToSet(e.fds) = F \ {d.fd} ELSE FailE(e, {e.h[1].e}) /\ ToSet(e.fds) \in {F, F \ {d.fd}}, T)
    [] e.op = "dirfd" -> Then(e.h = <<>> /\ e.ret = V(d.fd) /\ ToSet(e.fds) = F, S)
    [] OTHER ->     \* scandir
         IF Stray(pre, e) THEN Then(e.h = <<>> /\ Fail(e) /\ ToSet(e.fds) = F, S)
         ELSE IF e.h = <<>> THEN Then(e.ret = M1 /\ e.err \in Range(e.qe) /\ ToSet(e.fds) = F, S)
         ELSE IF ~OpenDirH(pre, e, e.h[1]) THEN Bad(S)
         ELSE IF e.h[1].e # 0 THEN Then(Len(e.h) = 1 /\ FailE(e, {e.h[1].e}) /\ ToSet(e.fds) = F, S)
         ELSE IF Len(e.h) # 2 \/ e.h[2].c # "fd_close" \/ e.h[2].fd # e.h[1].r THEN Bad(S)
         ELSE IF e.h[2].e = 0 /\ ToSet(e.fds) # F THEN Bad(S)
         ELSE IF e.rf # 0 THEN Then(FailE(e, {e.rf} \cup (IF e.h[2].e = 0 THEN {} ELSE {e.h[2].e})), [S EXCEPT !.fds = ToSet(e.fds)])
         ELSE LET W == Selected(e) IN
              Then(/\ e.ret = V(Len(W)) /\ Len(e.list) = Len(W) /\ ToSet(e.list) = ToSet(W)
                   /\ e.f \div 2 = 1 => \A k \in 1..(Len(W) - 1) : ~LessSeq(e.list[k + 1].name, e.list[k].name), [S EXCEPT !.fds = ToSet(e.fds)])

Step(pre, e, S) ==
  IF e.op \in DirOps THEN DirStep(pre, e, S)
  ELSE Then(CallOK(pre, e) /\ FdsOK(S.fds, ToSet(e.fds), e), [S EXCEPT !.fds = ToSet(e.fds)])

RECURSIVE Walk(_, _, _, _)
Walk(pre, ev, k, S) ==       \* 0: all allowed, else the first event that is not
  IF k > Len(ev) THEN 0
  ELSE LET T == Step(pre, ev[k], S) IN IF T.ok THEN Walk(pre, ev, k + 1, T) ELSE k

Start(h) == [ok |-> TRUE, fds |-> ToSet(h.fds), D |-> <<NoDir, NoDir, NoDir, NoDir>>]
Report(n) == LET h == data.hist[n]  k == Walk(h.pre, h.ev, 1, Start(h)) IN
  IF k = 0 THEN TRUE ELSE PrintT(ToJson([i |-> n, at |-> k, op |-> h.ev[k].op, targets |-> Cardinality(Resolve(h.pre, h.ev[k].p))]))
Init == i \in 1..Len(data.hist) /\ done = FALSE
Next == ~done /\ Report(i) /\ done' = TRUE /\ UNCHANGED i
====
