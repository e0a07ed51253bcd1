-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Small-step control flow: a machine whose control state is a stack of    *)
(* pending statements and markers.  Conditions are probes that read a      *)
(* decision from the environment, so that exploring this machine           *)
(* enumerates every path of a program up to a bound on decisions.  Each    *)
(* path ends with a printed decision tape and event sequence; the tape is  *)
(* replayed in the compiled program.  At each path's end the events are    *)
(* compared with those of the big-step semantics (CLang), which was        *)
(* written independently of this machine.                                  *)
(***************************************************************************)
EXTENDS CLang, Json, IOUtils
VARIABLES p,      \* index of the program
          k,      \* control stack (head = next)
          ev,     \* events so far
          tape,   \* decisions so far
          ph      \* "run" or "end"
vars == <<p, k, ev, tape, ph>>
Data == JsonDeserialize(IOEnv.WV_DATA)      \* <<[P, f, body, max]>>
Body0(i) == Data[i].P.funs[Data[i].f].body

Blk(b) == [k |-> "blk", b |-> b]            \* marks the end of block b
Brk == [k |-> "brk"]                        \* marks the end of a switch
Lp(c, st, b) == [k |-> "loop", c |-> c, st |-> st, b |-> b]     \* test next
Again(m) == [m EXCEPT !.k = "again"]        \* step, then test
NoStep == [k |-> "empty"]
LitTrue(c) == c.k = "lit"                   \* the only constant condition used
ProbeEv(c, v) == << <<9, c.id, 0, 0>>, <<1, v, 0, 0>> >>

Rest(b, i) == SubSeq(b, i, Len(b))
Enter(b, i, s) == Rest(b, i) \o << Blk(b) >> \o s
RECURSIVE PopLoop(_), PopBreak(_), PopGoto(_,_)
PopBreak(s) == IF Head(s).k \in {"loop", "again", "brk"} THEN Tail(s) ELSE PopBreak(Tail(s))
PopLoop(s) == IF Head(s).k \in {"loop", "again"} THEN << Again(Head(s)) >> \o Tail(s) ELSE PopLoop(Tail(s))
PopGoto(s, n) == IF Head(s).k = "blk" /\ LabelIx(Head(s).b, n, 1) > 0
                 THEN Enter(Head(s).b, LabelIx(Head(s).b, n, 1), Tail(s)) ELSE PopGoto(Tail(s), n)

(* Deterministic steps up to the next decision: <<stack, events>>.         *)
RECURSIVE Run(_,_)
Run(s, e) ==
  IF s = <<>> THEN <<s, e>> ELSE
  LET h == Head(s) t == Tail(s) IN
  CASE h.k \in {"blk", "brk", "empty", "label", "case", "default"} -> Run(t, e)
    [] h.k = "expr" -> Run(t, e \o << <<9, h.e.id, 0, 0>>, <<1, h.e.a.b[1], 0, 0>> >>)      \* p_(id, literal)
    [] h.k = "block" -> Run(Enter(h.b, 1, t), e)
    [] h.k = "while" -> Run(<< Lp(h.c, NoStep, h.b) >> \o t, e)
    [] h.k = "do" -> Run(<< h.b, Again(Lp(h.c, NoStep, h.b)) >> \o t, e)
    [] h.k = "for" -> Run(h.init \o << Lp(h.c, h.step, h.b) >> \o t, e)
    [] h.k = "again" -> Run(<< h.st, [h EXCEPT !.k = "loop"] >> \o t, e)
    [] h.k = "loop" /\ LitTrue(h.c) -> Run(<< h.b, Again(h) >> \o t, e)
    [] h.k = "break" -> Run(PopBreak(t), e)
    [] h.k = "continue" -> Run(PopLoop(t), e)
    [] h.k = "goto" -> Run(PopGoto(t, h.n), e)
    [] h.k = "return" -> <<<<>>, e>>
    [] OTHER -> <<s, e>>        \* if, loop, switch: a decision
Dom(h) == IF h.k = "switch" THEN {h.e.a.dom[j] : j \in 1..Len(h.e.a.dom)} ELSE {h.c.a.dom[j] : j \in 1..Len(h.c.a.dom)}
Decide(s, v) ==
  LET h == Head(s) t == Tail(s) IN
  CASE h.k = "if" -> IF v # 0 THEN << h.a >> \o t ELSE << h.b >> \o t
    [] h.k = "loop" -> IF v # 0 THEN << h.b, Again(h) >> \o t ELSE t
    [] h.k = "switch" ->
         LET j == CaseIx(h.b, FromNat(v, 4), 1) i == IF j > 0 THEN j ELSE DefaultIx(h.b, 1) IN
         IF i = 0 THEN t ELSE Enter(h.b, i, << Brk >> \o t)

Init == /\ p \in 1..Len(Data) /\ k = <<>> /\ ev = <<>> /\ tape = <<>> /\ ph = "start"
Start == /\ ph = "start" /\ ph' = "run" /\ p' = p /\ tape' = tape
         /\ LET r == Run(Enter(Body0(p), 1, <<>>), <<>>) IN k' = r[1] /\ ev' = r[2]
Step == /\ ph = "run" /\ k # <<>> /\ Len(tape) < Data[p].max
        /\ \E v \in Dom(Head(k)) :
             LET c == IF Head(k).k = "switch" THEN Head(k).e ELSE Head(k).c
                 r == Run(Decide(k, v), ev \o ProbeEv(c, v)) IN
             /\ tape' = Append(tape, v) /\ k' = r[1] /\ ev' = r[2]
        /\ UNCHANGED <<p, ph>>
Stop == /\ ph = "run" /\ (k = <<>> \/ Len(tape) >= Data[p].max)
        /\ ph' = "end" /\ UNCHANGED <<p, k, ev, tape>>
        /\ PrintT(ToJson([i |-> p, tape |-> tape, ev |-> ev]))
Next == Start \/ Step \/ Stop
(* Refinement: the big-step semantics has exactly these behaviours.        *)
SameAsBigStep == ph = "end" => LET s == RunFun(Data[p].P, Data[p].f, <<>>, tape) IN s.ev = ev /\ ~s.u
                                    /\ s.h = (k # <<>>)
=============================================================================
