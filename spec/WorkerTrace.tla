----------------------------- MODULE WorkerTrace -----------------------------
(* Runs recorded executions of the real program through the specification.  *)
(* The file holds one scenario per line: a header and its events.           *)
EXTENDS Worker, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACES)
\* the property being decided
Prop == IOEnv.PROP

SetOf(s) == {s[i] : i \in 1..Len(s)}

\* JSON arrays stand for sets in some places of the header
HeaderOf(s) ==
  [cfg |-> [s.cfg EXCEPT !.keys = SetOf(@)],
   fs |-> [p \in {s.fs[i].path : i \in 1..Len(s.fs)} |->
             LET i == CHOOSE i \in 1..Len(s.fs) : s.fs[i].path = p
             IN [kind |-> s.fs[i].kind, size |-> s.fs[i].size, src |-> s.fs[i].src]],
   reqs |-> [c \in {s.reqs[i].c : i \in 1..Len(s.reqs)} |->
             s.reqs[CHOOSE i \in 1..Len(s.reqs) : s.reqs[i].c = c].rs],
   victims |-> SetOf(s.victims), lift |-> SetOf(s.lift), subjects |-> SetOf(s.subjects), wild |-> SetOf(s.wild)]

EventOf(e) == IF e.e = "q" THEN [e EXCEPT !.blk = SetOf(@), !.und = SetOf(@)] ELSE e

VARIABLES tid, i, S
vars == <<tid, i, S>>

Init == /\ tid \in 1..Len(Scenarios)
        /\ i = 0
        /\ S = InitState(HeaderOf(Scenarios[tid]))

Next == /\ i < Len(Scenarios[tid].ev)
        /\ i' = i + 1
        /\ S' = Step(S, EventOf(Scenarios[tid].ev[i + 1]))
        /\ IF S'.t # {} THEN PrintT(<<"TAGS", Scenarios[tid].id, i + 1, S'.t>>) ELSE TRUE
        /\ IF i + 1 = Len(Scenarios[tid].ev) THEN PrintT(<<"DONE", Scenarios[tid].id, i + 1>>) ELSE TRUE
        /\ UNCHANGED tid

\* the execution is determined by the scenario and the position in it
View == <<tid, i, S.t>>

Spec == Init /\ [][Next]_vars

\* the property holds in every recorded execution
Holds == Prop \notin S.t
=============================================================================
