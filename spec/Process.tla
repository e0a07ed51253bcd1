------------------------------ MODULE Process -------------------------------
(* The life of a program: start, main, termination handlers, flushing of    *)
(* the open output streams, and the status the host sees.  A case gives the *)
(* script of main, of the handlers 1..3, the kind of return and the status; *)
(* the machine executes it and compares what the host recorded.             *)
(*   80 P  formatted output to stdout       87 W  write(1)                  *)
(*   102 f fflush(stdout)                   69 E  output to stderr          *)
(*   70 F  output to a file                 71 G  fflush of that file       *)
(*   49..51 register handler                97 a  abort    113 q  _exit     *)
(*   120 x exit                                                             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.WV_DATA)
VARIABLES i, phase, run, regs, n, buf, out, err, fbuf, file, ran
vars == <<i, phase, run, regs, n, buf, out, err, fbuf, file, ran>>
Closed == <<-1>>                   \* the file does not exist
C == Data[i]
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<48 + k>> ELSE Dec(k \div 10) \o <<48 + (k % 10)>>
Text(a) == <<a>> \o Dec(n) \o <<44>>
Init == /\ i \in 1..Len(Data) /\ phase = "main" /\ run = Data[i].main /\ regs = <<>> /\ n = 0
        /\ buf = <<>> /\ out = <<>> /\ err = <<>> /\ fbuf = <<>> /\ file = Closed /\ ran = 0
\* end without handlers or flushing
Die == phase' = "dead" /\ run' = <<>> /\ UNCHANGED <<regs, n, buf, out, err, fbuf, file, ran>>
Finish == phase' = "terminating" /\ run' = <<>> /\ UNCHANGED <<regs, n, buf, out, err, fbuf, file, ran>>
Step ==
  LET a == Head(run) IN
  /\ i' = i
  /\ IF a = 97 \/ a = 113 THEN Die
     ELSE IF a = 120 /\ phase = "main" THEN Finish
     ELSE /\ phase' = phase /\ run' = Tail(run) /\ ran' = ran
          /\ n' = IF a \in {80, 87, 69, 70} THEN n + 1 ELSE n
          /\ buf' = IF a = 80 THEN buf \o Text(a) ELSE IF a = 102 THEN <<>> ELSE buf
          /\ out' = IF a = 87 THEN out \o Text(a) ELSE IF a = 102 THEN out \o buf ELSE out
          /\ err' = IF a = 69 THEN err \o Text(a) ELSE err
          /\ fbuf' = IF a = 70 THEN fbuf \o Text(a) ELSE IF a = 71 THEN <<>> ELSE fbuf
          /\ file' = LET f == IF file = Closed THEN <<>> ELSE file IN IF a = 70 THEN f ELSE IF a = 71 /\ file # Closed THEN f \o fbuf ELSE file
          /\ regs' = IF a \in 49..51 THEN Append(regs, a - 48) ELSE regs
Return == run = <<>> /\ phase = "main" /\ i' = i /\ Finish
Handler == /\ run = <<>> /\ phase = "terminating" /\ regs # <<>>
           /\ run' = C.h[regs[Len(regs)]] /\ regs' = SubSeq(regs, 1, Len(regs) - 1) /\ ran' = ran + 1
           /\ UNCHANGED <<i, phase, n, buf, out, err, fbuf, file>>
Flush == /\ run = <<>> /\ phase = "terminating" /\ regs = <<>>
         /\ phase' = "gone" /\ out' = out \o buf /\ buf' = <<>> /\ fbuf' = <<>>
         /\ file' = (IF file = Closed THEN Closed ELSE file \o fbuf)
         /\ UNCHANGED <<i, run, regs, n, err, ran>>
Over == phase \in {"gone", "dead"}
Status == C.status
Aborts == phase = "dead" /\ C.aborts
Good == /\ C.how = "exit" /\ C.out = out /\ C.err = err /\ C.file = file
        /\ IF Aborts THEN C.code # 0 ELSE C.code = Status
Check == /\ Over /\ phase' = "checked"
         /\ IF Good THEN TRUE ELSE PrintT(ToJson([i |-> i, exp |-> [out |-> out, err |-> err, file |-> file, code |-> Status]]))
         /\ UNCHANGED <<i, run, regs, n, buf, out, err, fbuf, file, ran>>
Next == (phase \in {"main", "terminating"} /\ run # <<>> /\ Step) \/ Return \/ Handler \/ Flush \/ Check
\* when the process is gone every handler registered has run, nothing is left unwritten
Complete == phase = "gone" => regs = <<>> /\ buf = <<>> /\ fbuf = <<>>
Terminates == <>(phase = "checked")
=============================================================================
