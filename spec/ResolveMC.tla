---- MODULE ResolveMC ----
(* Every small set of pre-opened names and every small path: the loop of the library (last to first, byte
   comparison, length of the best so far) finds a target Resolve allows, and Resolve has the properties the
   library's users rely on. *)
EXTENDS Posix, TLC
CONSTANTS ALPHA, NAMELEN, PATHLEN, NPRE
VARIABLES names, path
Strs(n) == UNION {[1..k -> ALPHA] : k \in 0..n}
Pre == [k \in 1..Len(names) |-> [fd |-> k + 2, name |-> names[k]]]
S == Sep(Pre)

RECURSIVE Loop(_, _, _, _)
Loop(k, p, fd, len) ==
  IF k = 0 THEN [fd |-> fd, len |-> len]
  ELSE LET n == Norm(names[k], S)  pl == Len(n) IN
       IF (fd = -1 \/ pl > len) /\ (pl = 0 \/ (Len(p) >= pl /\ SubSeq(p, 1, pl) = n /\ (Len(p) = pl \/ p[pl + 1] = S)))
       THEN Loop(k - 1, p, k + 2, pl) ELSE Loop(k - 1, p, fd, len)
RECURSIVE Skip(_)
Skip(q) == IF q # <<>> /\ q[1] = S THEN Skip(Tail(q)) ELSE q
Impl == LET p == Strip(path, S)  r == Loop(Len(names), p, -1, 0)
            q == Skip(SubSeq(p, r.len + 1, Len(p)))
        IN [fd |-> IF path = <<>> THEN -1 ELSE r.fd, q |-> IF q = <<>> THEN <<DOT>> ELSE q]

Init == names \in UNION {[1..k -> Strs(NAMELEN)] : k \in 0..NPRE} /\ path \in Strs(PATHLEN)
Next == FALSE /\ UNCHANGED <<names, path>>
R == Resolve(Pre, path)
LoopOK == IF Impl.fd = -1 THEN R = {} ELSE \E r \in R : r.fd = Impl.fd /\ Sent(Impl.q, r.rel, S)
Boundary == \A r \in R : LET n == Norm(names[r.fd - 2], S)  p == Strip(path, S) IN
              n = <<>> \/ p = n \/ (Len(p) > Len(n) /\ SubSeq(p, 1, Len(n)) = n /\ p[Len(n) + 1] = S)
Longest == \A r \in R : \A k \in 1..Len(names) : Covers(Norm(names[k], S), Strip(path, S), S) => Len(Norm(names[k], S)) <= Len(Norm(names[r.fd - 2], S))
NotAbsolute == \A r \in R : r.rel = <<>> \/ r.rel[1] # S
OneRest == \A r1, r2 \in R : r1.rel = r2.rel
\* a spelling of the directory itself reaches that directory or one of the same name
Itself == \A k \in 1..Len(names) : (path = names[k] /\ path # <<>>) => \E r \in R : r.rel = <<>> /\ Norm(names[r.fd - 2], S) = Norm(names[k], S)
====
