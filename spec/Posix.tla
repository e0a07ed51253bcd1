---- MODULE Posix ----
(* The file-system calls of the library over a WASI host.

   A path is a byte sequence.  A pre-opened directory is [fd, name].  Every path-taking call is directed at
   the pre-opened directory whose name is the longest prefix of the path on component boundaries; the rest
   of the path goes to the host unchanged.  Calls on descriptors go to the host as they are.  What the host
   answers (result or error number) is what the caller gets.

   Directory streams are a snapshot of entries and a position. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, IntSem

DOT == 46
SLASH == 47
BSL == 92

\* ---- path resolution ---------------------------------------------------------------
Sep(pre) == IF \E k \in 1..Len(pre) : pre[k].name # <<>> /\ pre[k].name[Len(pre[k].name)] = BSL THEN BSL ELSE SLASH

RECURSIVE Strip(_, _)
Strip(p, s) == IF p = <<>> THEN p
  ELSE IF p[1] = s THEN Strip(Tail(p), s)
  ELSE IF p = <<DOT>> THEN <<>>
  ELSE IF p[1] = DOT /\ p[2] = s THEN Strip(SubSeq(p, 3, Len(p)), s)
  ELSE p
RECURSIVE NoTrail(_, _)
NoTrail(p, s) == IF p # <<>> /\ p[Len(p)] = s THEN NoTrail(SubSeq(p, 1, Len(p) - 1), s) ELSE p
Norm(n, s) == NoTrail(Strip(n, s), s)            \* the directory a pre-open name denotes

Covers(n, p, s) == \/ n = <<>>
                   \/ /\ Len(p) >= Len(n) /\ SubSeq(p, 1, Len(n)) = n
                      /\ (Len(p) = Len(n) \/ p[Len(n) + 1] = s)
Rest(n, p, s) == Strip(SubSeq(p, Len(n) + 1, Len(p)), s)

\* the set of [fd, rel]: several when two pre-opens have the same name; rel <<>> is the directory itself
Resolve(pre, path) ==
  LET s == Sep(pre)  p == Strip(path, s)
      C == {k \in 1..Len(pre) : Covers(Norm(pre[k].name, s), p, s)}
      B == {k \in C : \A j \in C : Len(Norm(pre[j].name, s)) <= Len(Norm(pre[k].name, s))}
  IN IF path = <<>> THEN {} ELSE {[fd |-> pre[k].fd, rel |-> Rest(Norm(pre[k].name, s), p, s)] : k \in B}

\* the path handed to the host names rel: never absolute, never empty
Sent(q, rel, s) == /\ q # <<>> /\ q[1] # s /\ Strip(q, s) = rel

\* ---- flags ---------------------------------------------------------------------------
NOENT == 44   INVAL == 28   NOTCAP == 76   BADF == 8   SPIPE == 70   ISDIR == 31   PERM == 63  NOTTY == 59
Bit(f, b) == (f \div b) % 2 = 1
O_NOFOLLOW == 16777216  O_EXEC == 33554432  O_RDONLY == 67108864  O_SEARCH == 134217728  O_WRONLY == 268435456
Acc(f) == {b \in {O_EXEC, O_RDONLY, O_SEARCH, O_WRONLY} : Bit(f, b)}
AccOK(f) == Acc(f) \in {{O_EXEC}, {O_RDONLY}, {O_SEARCH}, {O_WRONLY}, {O_RDONLY, O_WRONLY}}
RBit(r, k) == BitAt(r, k)                                   \* r: 8 bytes, k: bit number
\* WASI file type -> st_mode type bits
ModeOf(t) == CASE t = 1 -> 24576 [] t = 2 -> 8192 [] t = 3 -> 16384 [] t = 4 -> 32768 [] t \in {5, 6} -> 49152 [] t = 7 -> 40960 [] OTHER -> 0

\* ---- results --------------------------------------------------------------------------
M1 == <<255, 255, 255, 255, 255, 255, 255, 255>>
V(n) == FromNat(n, 8)
Fail(e) == e.ret = M1 /\ e.err # 0
FailE(e, S) == e.ret = M1 /\ e.err \in S
Neg(b) == TopBit(b)
Refused(e, S) == e.h = <<>> /\ FailE(e, S)

RECURSIVE LessSeq(_, _)
LessSeq(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessSeq(Tail(a), Tail(b))

\* ---- struct stat against the host's answer ----------------------------------------------
BILLION == <<0, 202, 154, 59, 0, 0, 0, 0>>
StampOK(d, k, t) == LET s == SubSeq(d, k, k + 7)  n == SubSeq(d, k + 8, k + 15) IN
  AddB(MulB(s, BILLION), n) = t /\ LtU(n, BILLION) /\ ~LtU(t, s)
StatOK(d, o) ==
  /\ SubSeq(d, 1, 8) = SubSeq(o, 1, 8) /\ SubSeq(d, 9, 16) = SubSeq(o, 9, 16)
  /\ SubSeq(d, 17, 24) = SubSeq(o, 25, 32)
  /\ SubSeq(d, 25, 32) = V(ModeOf(o[17]))
  /\ SubSeq(d, 33, 40) = SubSeq(o, 33, 40)
  /\ StampOK(d, 41, SubSeq(o, 41, 48)) /\ StampOK(d, 57, SubSeq(o, 49, 56)) /\ StampOK(d, 73, SubSeq(o, 57, 64))

\* ---- the directory-stream state ------------------------------------------------------------
\* ds: slot -> [fd, ents, pos, stale, tok]; ents: sequence of [ino, type, name]
NoDir == [open |-> FALSE, fd |-> -1, ents |-> <<>>, pos |-> 0, stale |-> FALSE, tok |-> <<-1, -1, -1, -1>>]

\* ---- one call against its record -------------------------------------------------------------
\* e.h: the calls with effect the host saw; e.q: errors of the query calls it saw;
\* Single(e, A, v, alt): exactly one call, equal to A in the relevant fields, its outcome passed on
Single(e, Is(_), val(_), Alt(_)) ==
  /\ Len(e.h) = 1 /\ Is(e.h[1])
  /\ IF e.h[1].e = 0 THEN e.ret = val(e.h[1]) ELSE FailE(e, {e.h[1].e} \cup Alt(e.h[1].e))
NoAlt(x) == {}
CapBad(x) == IF x = NOTCAP THEN {BADF} ELSE {}
CapSeek(x) == IF x = NOTCAP THEN {BADF, SPIPE} ELSE {}
CapInval(x) == IF x = NOTCAP THEN {BADF, INVAL} ELSE {}
Zero8(h) == V(0)
At(pre, path, h) == LET s == Sep(pre) IN \E r \in Resolve(pre, path) : h.fd = r.fd /\ Sent(h.p, r.rel, s)
At2(pre, path, h) == LET s == Sep(pre) IN \E r \in Resolve(pre, path) : h.fd2 = r.fd /\ Sent(h.p2, r.rel, s)
Lost(pre, e) == Resolve(pre, e.p) = {}

\* rel: the target is fixed by (fd, path) exactly, or by resolution
Tgt(pre, e, h) == IF e.at THEN h.fd = e.fd /\ h.p = e.p ELSE At(pre, e.p, h)
Tgt2(pre, e, h) == IF e.at THEN h.fd2 = e.fd2 /\ h.p2 = e.p2 ELSE At2(pre, e.p2, h)
Stray(pre, e) == ~e.at /\ Resolve(pre, e.p) = {}
Stray2(pre, e) == ~e.at /\ Resolve(pre, e.p2) = {}

RightsOK(f, inh, rb) ==      \* only what was asked for and is inherited
  /\ RBit(rb, 1) = (IF Bit(f, O_RDONLY) THEN RBit(inh, 1) ELSE 0)
  /\ RBit(rb, 14) = (IF Bit(f, O_RDONLY) THEN RBit(inh, 14) ELSE 0)
  /\ RBit(rb, 6) = (IF Bit(f, O_WRONLY) THEN RBit(inh, 6) ELSE 0)
  /\ RBit(rb, 22) = (IF Bit(f, O_WRONLY) THEN RBit(inh, 22) ELSE 0)
  /\ \A k \in 0..29 : RBit(inh, k) = 0 => RBit(rb, k) = 0
  /\ RBit(rb, 2) = RBit(inh, 2) /\ RBit(rb, 21) = RBit(inh, 21)

OpenOK(pre, e, f, val(_)) ==
  IF ~AccOK(f) THEN e.h = <<>> /\ FailE(e, {INVAL} \cup (IF Stray(pre, e) THEN 1..100 ELSE {}))
  ELSE IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
  ELSE Single(e, LAMBDA h : /\ h.c = "path_open" /\ Tgt(pre, e, h)
                         /\ h.l = (IF Bit(f, O_NOFOLLOW) THEN 0 ELSE 1)
                         /\ h.o = (f \div 4096) % 4096 /\ h.ff = f % 4096
                         /\ RightsOK(f, h.inh, h.rb),
              val, NoAlt)

Same(h, e) == h.fd = e.fd
SpecialsOK(pre, e) ==
  CASE e.op = "open"   -> OpenOK(pre, e, e.f, LAMBDA h : V(h.r))
    [] e.op = "close"  -> Single(e, LAMBDA h : h.c = "fd_close" /\ Same(h, e), Zero8, NoAlt)
    [] e.op = "read"   -> /\ Single(e, LAMBDA h : h.c = "fd_read" /\ Same(h, e) /\ h.n = e.n, LAMBDA h : V(Len(h.out)), CapBad)
                          /\ e.h[1].e = 0 => SubSeq(e.d, 1, Len(e.h[1].out)) = e.h[1].out
                          /\ \A k \in 1..Len(e.d) : k > Len(e.h[1].out) => e.d[k] = 238
    [] e.op = "write"  -> Single(e, LAMBDA h : h.c = "fd_write" /\ Same(h, e) /\ h.out = e.p, LAMBDA h : V(h.r), CapBad)
    [] e.op = "pread"  -> IF Neg(e.x) THEN Refused(e, {INVAL})
                          ELSE /\ Single(e, LAMBDA h : h.c = "fd_pread" /\ Same(h, e) /\ h.n = e.n /\ h.x = e.x, LAMBDA h : V(Len(h.out)), CapSeek)
                               /\ e.h[1].e = 0 => SubSeq(e.d, 1, Len(e.h[1].out)) = e.h[1].out
                               /\ \A k \in 1..Len(e.d) : k > Len(e.h[1].out) => e.d[k] = 238
    [] e.op = "pwrite" -> IF Neg(e.x) THEN Refused(e, {INVAL})
                          ELSE Single(e, LAMBDA h : h.c = "fd_pwrite" /\ Same(h, e) /\ h.out = e.p /\ h.x = e.x, LAMBDA h : V(h.r), CapSeek)
    [] e.op = "lseek"  -> Single(e, LAMBDA h : h.c = "fd_seek" /\ Same(h, e) /\ h.x = e.x /\ h.n = e.n, LAMBDA h : h.out, CapSeek)
    [] e.op = "ftruncate" -> IF Neg(e.x) THEN Refused(e, {INVAL})
                          ELSE Single(e, LAMBDA h : h.c = "fd_filestat_set_size" /\ Same(h, e) /\ h.x = e.x, Zero8, NoAlt)
    [] e.op = "fstat"  -> /\ Single(e, LAMBDA h : h.c = "fd_filestat_get" /\ Same(h, e), Zero8, NoAlt)
                          /\ e.h[1].e = 0 => StatOK(e.d, e.h[1].out)
    [] e.op \in {"stat", "lstat"} ->
         IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE /\ Single(e, LAMBDA h : h.c = "path_filestat_get" /\ Tgt(pre, e, h) /\ h.l = (IF e.op = "stat" THEN 1 ELSE 0), Zero8, NoAlt)
              /\ e.h[1].e = 0 => StatOK(e.d, e.h[1].out)
    [] e.op = "access" ->
         IF e.f \div 8 # 0 THEN FailE(e, {INVAL} \cup (IF Stray(pre, e) THEN 1..100 ELSE {})) /\ e.h = <<>>
         ELSE IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE /\ Len(e.h) = 1 /\ e.h[1].c = "path_filestat_get" /\ Tgt(pre, e, e.h[1]) /\ e.h[1].l = 1
              /\ IF e.h[1].e # 0 THEN FailE(e, {e.h[1].e})
                 ELSE LET dir == e.h[1].out[17] = 3   inh == e.h[1].inh
                          rd == Bit(e.f, 4) => RBit(inh, IF dir THEN 14 ELSE 1) = 1
                          wr == Bit(e.f, 2) => RBit(inh, 6) = 1
                      IN (\E x \in Range(e.qe) : FailE(e, {x})) \/ (IF rd /\ wr THEN e.ret = V(0) ELSE FailE(e, {2}))
    [] e.op \in {"mkdir", "rmdir", "unlink"} ->
         IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE Single(e, LAMBDA h : h.c = (CASE e.op = "mkdir" -> "path_create_directory" [] e.op = "rmdir" -> "path_remove_directory" [] OTHER -> "path_unlink_file") /\ Tgt(pre, e, h), Zero8, NoAlt)
    [] e.op = "remove" ->
         IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE /\ Len(e.h) \in {1, 2} /\ e.h[1].c = "path_unlink_file" /\ Tgt(pre, e, e.h[1])
              /\ IF e.h[1].e = 0 THEN Len(e.h) = 1 /\ e.ret = V(0)
                 ELSE IF e.h[1].e \notin {ISDIR, NOTCAP, PERM} THEN Len(e.h) = 1 /\ FailE(e, {e.h[1].e})
                 ELSE IF Len(e.h) = 1 THEN e.h[1].e = PERM /\ FailE(e, {PERM})
                 ELSE /\ e.h[2].c = "path_remove_directory" /\ Tgt(pre, e, e.h[2])
                      /\ IF e.h[2].e = 0 THEN e.ret = V(0) ELSE FailE(e, {e.h[1].e, e.h[2].e, NOTCAP})
    [] e.op \in {"link", "rename"} ->
         IF Stray(pre, e) \/ Stray2(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE Single(e, LAMBDA h : /\ h.c = (IF e.op = "link" THEN "path_link" ELSE "path_rename")
                                /\ Tgt(pre, e, h) /\ Tgt2(pre, e, h)
                                /\ e.op = "link" => h.l = (IF Bit(e.f, 2) THEN 1 ELSE 0), Zero8, NoAlt)
    [] e.op = "symlink" ->       \* p2: the target text, verbatim; p: where
         IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE Single(e, LAMBDA h : h.c = "path_symlink" /\ Tgt(pre, e, h) /\ h.p2 = e.p2, Zero8, NoAlt)
    [] e.op = "readlink" ->
         IF Stray(pre, e) THEN e.h = <<>> /\ Fail(e)
         ELSE /\ Single(e, LAMBDA h : h.c = "path_readlink" /\ Tgt(pre, e, h) /\ h.n = e.n, LAMBDA h : V(Len(h.out)), NoAlt)
              /\ e.h[1].e = 0 => SubSeq(e.d, 1, Len(e.h[1].out)) = e.h[1].out
              /\ \A k \in 1..Len(e.d) : k > Len(e.h[1].out) => e.d[k] = 238
    [] e.op = "getfl"  -> /\ e.h = <<>>
                          /\ IF ~e.st.ok THEN Fail(e)
                             ELSE e.ret = V(e.st.ff + (LET r == RBit(e.st.rb, 1) = 1 \/ RBit(e.st.rb, 14) = 1   w == RBit(e.st.rb, 6) = 1 IN
                                    CASE r /\ w -> O_RDONLY + O_WRONLY [] r -> O_RDONLY [] w -> O_WRONLY [] OTHER -> O_SEARCH))
    [] e.op = "setfl"  -> Single(e, LAMBDA h : h.c = "fd_fdstat_set_flags" /\ Same(h, e) /\ h.ff = e.f % 4096, Zero8, NoAlt)
    [] e.op \in {"fadvise", "fallocate"} ->      \* the error number is the result
         IF Neg(e.x) \/ Neg(e.y) THEN e.h = <<>> /\ e.ret = V(INVAL)
         ELSE /\ Len(e.h) = 1 /\ e.h[1].c = (IF e.op = "fadvise" THEN "fd_advise" ELSE "fd_allocate") /\ Same(e.h[1], e)
              /\ e.h[1].x = e.x /\ e.h[1].y = e.y /\ (e.op = "fadvise" => e.h[1].n = e.n)
              /\ e.ret = V(e.h[1].e)
    [] e.op \in {"fsync", "fdatasync"} -> Single(e, LAMBDA h : h.c = (IF e.op = "fsync" THEN "fd_sync" ELSE "fd_datasync") /\ Same(h, e), Zero8, CapInval)
    [] e.op = "isatty" -> /\ e.h = <<>>
                          /\ IF e.st.ok /\ e.st.ft = 2 /\ RBit(e.st.rb, 2) = 0 /\ RBit(e.st.rb, 5) = 0 THEN e.ret = V(1) ELSE e.ret = V(0) /\ e.err # 0
    [] e.op = "fopen"  ->      \* opened and closed again; ret tells which of the two succeeded
         IF Stray(pre, e) THEN e.h = <<>> /\ e.ret = V(0) /\ e.err # 0
         ELSE /\ Len(e.h) >= 1 /\ e.h[1].c = "path_open" /\ Tgt(pre, e, e.h[1]) /\ RightsOK(e.f, e.h[1].inh, e.h[1].rb)
              /\ e.h[1].o = (e.f \div 4096) % 4096 /\ e.h[1].ff = e.f % 4096
              /\ IF e.h[1].e # 0 THEN Len(e.h) = 1 /\ e.ret = V(0) /\ e.err = e.h[1].e
                 ELSE e.ret # V(0) \/ (\E k \in 2..Len(e.h) : e.h[k].e # 0 /\ e.err = e.h[k].e)      \* seeking to the end may fail
    [] OTHER -> FALSE

\* a failing query may end the call before any effect, with the query's error
CallOK(pre, e) == \/ SpecialsOK(pre, e)
                  \/ \E x \in Range(e.qe) : e.h = <<>> /\ (FailE(e, {x}) \/ (e.op = "fopen" /\ e.ret = V(0) /\ e.err = x))

\* the descriptors open afterwards
FdsOK(before, after, e) ==
  IF e.op = "open" /\ ~Neg(e.ret) THEN after = before \cup {Nat31(e.ret)} /\ Nat31(e.ret) \notin before
  ELSE IF e.op = "close" THEN (IF e.ret = V(0) THEN after = before \ {e.fd} ELSE after \in {before, before \ {e.fd}})
  ELSE IF e.op = "fopen" THEN after \subseteq before \/ e.ret = V(2)
  ELSE after = before
====
