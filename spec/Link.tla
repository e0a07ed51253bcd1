-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* Linking: which sets of modules form a program and what the program's    *)
(* references then denote.                                                 *)
(*                                                                         *)
(* A module is [n, main, imp, defs]: its name, whether it defines main, the*)
(* names of the modules it mentions and its definitions.  A definition is  *)
(* [id, kind, tag, val, refs]; kind is "func", "scal" or "data"; val is    *)
(* the initial contents.  A reference is [m, id, kind, how, k, m2, id2]:   *)
(* definition id of module m, declared by the referring module as kind.    *)
(* given: the modules named on the command line, in order; lib: those that *)
(* can be found on the library path.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[k] : k \in DOMAIN s}
Named(ms, n) == {m \in Range(ms) : m.n = n}
Dup(ms) == \E a, b \in DOMAIN ms : a # b /\ ms[a].n = ms[b].n
Mains(ms) == {k \in DOMAIN ms : ms[k].main}

(* Modules that take part: the given ones and, as long as one is mentioned *)
(* that is not there yet, library modules of that name.                    *)
RECURSIVE Load(_,_)
Mentioned(S) == UNION {Range(m.imp) : m \in S}
Names(S) == {m.n : m \in S}
Load(lib, S) ==
  LET need == Mentioned(S) \ Names(S)
      new == UNION {Named(lib, n) : n \in need}
  IN IF new = {} THEN S ELSE Load(lib, S \cup new)
Loaded(given, lib) == Load(lib, Range(given))
Lacking(S) == Mentioned(S) \ Names(S)

HasDef(S, m, id) == \E x \in S : x.n = m /\ \E d \in DOMAIN x.defs : x.defs[d].id = id
TheMod(S, m) == CHOOSE x \in S : x.n = m
DefOf(S, m, id) == LET x == TheMod(S, m) IN x.defs[CHOOSE d \in DOMAIN x.defs : x.defs[d].id = id]
Targets(r) == {[m |-> r.m, id |-> r.id, kind |-> r.kind]} \cup (IF r.how = "same" THEN {[m |-> r.m2, id |-> r.id2, kind |-> "func"]} ELSE {})
RefsOf(S, t) == IF HasDef(S, t.m, t.id) THEN LET d == DefOf(S, t.m, t.id) IN UNION {Targets(d.refs[k]) : k \in DOMAIN d.refs} ELSE {}
RECURSIVE Reach(_,_)
Reach(S, R) == LET N == R \cup UNION {RefsOf(S, t) : t \in R} IN IF N = R THEN R ELSE Reach(S, N)
MainOf(given) == given[CHOOSE k \in Mains(given) : TRUE].n
Entry(given) == [m |-> MainOf(given), id |-> "main", kind |-> "func"]
Resolved(S, t) == HasDef(S, t.m, t.id) /\ DefOf(S, t.m, t.id).kind = t.kind

(* "" when the modules form a program, otherwise the rule they break       *)
Problem(given, lib) ==
  IF Dup(given) THEN "duplicate module"
  ELSE IF Cardinality(Mains(given)) # 1 THEN "main"
  ELSE LET S == Loaded(given, lib) IN
    IF Lacking(S) # {} THEN "missing module"
    ELSE IF \E m \in S \ Range(given) : m.main THEN "main in a library module"
    ELSE IF \E t \in Reach(S, {Entry(given)}) : ~Resolved(S, t) THEN "unresolved reference"
    ELSE ""

(* The run of a linked program: the values it reports.  Storage is one     *)
(* function from <<module, id>> to contents.                               *)
Store0(S) == [p \in {<<m.n, m.defs[d].id>> : <<m, d>> \in {<<x, e>> \in S \X (1..40) : e \in DOMAIN x.defs}} |-> DefOf(S, p[1], p[2]).val]
RECURSIVE Enter(_,_,_,_), Perform(_,_,_,_,_)
Enter(S, m, id, st) == LET d == DefOf(S, m, id) IN Perform(S, d.refs, 1, [st EXCEPT !.ev = Append(@, d.tag)], d)
Perform(S, refs, k, st, self) ==
  IF k > Len(refs) THEN st
  ELSE LET r == refs[k] p == <<r.m, r.id>>
           Put(i, x) == [st EXCEPT !.ev = Append(@, st.mem[p][i]), !.mem[p][i] = @ + x]
           s2 ==
             CASE r.how \in {"call", "ptr"} -> Enter(S, r.m, r.id, st)
               [] r.how = "fp" -> LET t == DefOf(S, r.m, r.id).refs[1] IN Enter(S, t.m, t.id, st)    \* through a function pointer variable
               [] r.how = "scal" -> Put(1, r.k)
               [] r.how = "data" -> Put(r.k, 1)
               [] r.how = "deref" -> LET t == DefOf(S, r.m, r.id).refs[1] q == <<t.m, t.id>>         \* through a pointer in data
                                     IN [st EXCEPT !.ev = Append(@, st.mem[q][1]), !.mem[q][1] = @ + 2]
               [] r.how = "same" -> [st EXCEPT !.ev = Append(@, IF r.m = r.m2 /\ r.id = r.id2 THEN 1 ELSE 0)]
               [] OTHER -> st                                                                         \* "never": present but not executed
       IN Perform(S, refs, k+1, s2, self)
Behaviour(given, lib) == LET S == Loaded(given, lib) IN Enter(S, MainOf(given), "main", [ev |-> <<>>, mem |-> Store0(S)]).ev
=============================================================================
