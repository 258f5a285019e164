------------------------------ MODULE PartTrace ------------------------------
(* Runs recorded executions of single parts of the program through their     *)
(* specifications.                                                           *)
EXTENDS Ring, Map, Tree, Pool, Timers, KeySearch, Seq, Log, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACES)

PartInit(s) ==
  CASE s.part = "ring" -> RingInit
    [] s.part = "map" -> MapInit
    [] s.part = "tree" -> TreeInit
    [] s.part = "pool" -> PoolInit
    [] s.part = "timer" -> TimersInit
    [] s.part = "seq" -> SeqInit
    [] s.part = "log" -> LogInit
    [] s.part = "ac" -> KeyInit({s.keys[i] : i \in 1..Len(s.keys)})

PartStep(s, S, e) ==
  CASE s.part = "ring" -> RingStep(S, e)
    [] s.part = "map" -> MapStep(S, e)
    [] s.part = "tree" -> TreeStep(S, e)
    [] s.part = "pool" -> PoolStep(S, e)
    [] s.part = "timer" -> TimersStep(S, e)
    [] s.part = "seq" -> SeqStep(S, e)
    [] s.part = "log" -> LogStep(S, e)
    [] s.part = "ac" -> KeyStep(S, e)

VARIABLES tid, i, S
vars == <<tid, i, S>>

Init == /\ tid \in 1..Len(Scenarios)
        /\ i = 0
        /\ S = PartInit(Scenarios[tid])

Next == /\ i < Len(Scenarios[tid].ev)
        /\ i' = i + 1
        /\ S' = PartStep(Scenarios[tid], S, Scenarios[tid].ev[i + 1])
        /\ IF S'.t # {} THEN PrintT(<<"TAGS", Scenarios[tid].id, i + 1, S'.t>>) ELSE TRUE
        /\ IF i + 1 = Len(Scenarios[tid].ev) THEN PrintT(<<"DONE", Scenarios[tid].id, i + 1>>) ELSE TRUE
        /\ UNCHANGED tid

View == <<tid, i, S.t>>
Spec == Init /\ [][Next]_vars
=============================================================================
