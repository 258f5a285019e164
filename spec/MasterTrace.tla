----------------------------- MODULE MasterTrace -----------------------------
(* Runs recorded executions of the real program through Master.             *)
EXTENDS Master, Json, IOUtils, TLC

Scenarios == ndJsonDeserialize(IOEnv.TRACES)
SetOf(s) == {s[i] : i \in 1..Len(s)}
HeaderOf(s) == [s.h EXCEPT !.quits = SetOf(@), !.tells = SetOf(@), !.lift = SetOf(@)]

VARIABLES tid, i, S
vars == <<tid, i, S>>

Init == /\ tid \in 1..Len(Scenarios)
        /\ i = 0
        /\ S = InitMaster(HeaderOf(Scenarios[tid]))

Next == /\ i < Len(Scenarios[tid].ev)
        /\ i' = i + 1
        /\ S' = Step(S, Scenarios[tid].ev[i + 1])
        /\ IF S'.t # {} THEN PrintT(<<"TAGS", Scenarios[tid].id, i + 1, S'.t>>) ELSE TRUE
        /\ IF i + 1 = Len(Scenarios[tid].ev) THEN PrintT(<<"DONE", Scenarios[tid].id, i + 1>>) ELSE TRUE
        /\ UNCHANGED tid

View == <<tid, i, S.t>>
Spec == Init /\ [][Next]_vars
\* the simulated system and the specification agree on which workers run
Agree == i > 0 /\ Scenarios[tid].h.role = "master" /\ Scenarios[tid].ev[i].e = "suspend"
         => SetOf(Scenarios[tid].ev[i].alive) = S.alive
=============================================================================
