------------------------------- MODULE LogMC --------------------------------
(* A log as it is built: the program and another process have opened one     *)
(* file and write to it, each record being a head and a text.  all is what    *)
(* the log has to be.                                                         *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen,  \* records in the log
          Flaw     \* "none", or how it goes wrong: "seek", "pieces", "clear", "below", "above"
VARIABLES file, at, half, num, level, busy, all, op
vars == <<file, at, half, num, level, busy, all, op>>

Init == file = <<>> /\ at = 0 /\ half = 0 /\ num = 0 /\ level = 0 /\ busy = FALSE /\ all = <<>> /\ op = <<"new">>

\* put at place p, over what is there
Over(p, s) == [i \in 1..(IF p + Len(s) > Len(file) THEN p + Len(s) ELSE Len(file)) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE file[i]]
Mine(s) == IF Flaw = "seek" THEN Over(at, s) ELSE file \o s
Rank == [error |-> 0, debug |-> 2]
Wanted(lv) == CASE Flaw = "below" -> Rank[lv] < level [] Flaw = "above" -> TRUE [] OTHER -> Rank[lv] <= level

Whole(k) == <<<<k, 1>>, <<k, 2>>>>
Put(lv) ==
  /\ half = 0 /\ num < MaxLen /\ num' = num + 1
  /\ LET k == num + 1
         s == IF ~ Wanted(lv) THEN <<>> ELSE IF Flaw = "pieces" THEN <<<<k, 1>>>> ELSE Whole(k)
     IN /\ file' = Mine(s)
        /\ at' = at + Len(s)
        /\ half' = IF Flaw = "pieces" /\ Wanted(lv) THEN k ELSE 0
        /\ all' = IF Rank[lv] <= level THEN all \o Whole(k) ELSE all
  /\ op' = <<"put", lv>> /\ UNCHANGED <<level, busy>>
Rest == /\ half # 0 /\ file' = Mine(<<<<half, 2>>>>) /\ at' = at + 1 /\ half' = 0 /\ op' = <<"rest">>
        /\ UNCHANGED <<num, level, busy, all>>
Other == /\ num < MaxLen /\ num' = num + 1 /\ file' = file \o Whole(num + 1) /\ all' = all \o Whole(num + 1)
         /\ op' = <<"other">> /\ UNCHANGED <<at, half, level, busy>>
Reopen == /\ half = 0 /\ at' = 0 /\ file' = (IF Flaw = "clear" THEN <<>> ELSE file) /\ op' = <<"reopen">>
          /\ UNCHANGED <<half, num, level, busy, all>>
Level(n) == n # level /\ level' = n /\ op' = <<"level", n>> /\ UNCHANGED <<file, at, half, num, busy, all>>
Busy == busy' = ~ busy /\ op' = <<"busy", IF busy THEN 0 ELSE 1>> /\ UNCHANGED <<file, at, half, num, level, all>>

Next == (\E lv \in {"error", "debug"} : Put(lv)) \/ Rest \/ Other \/ Reopen \/ (\E n \in {-1, 0, 1, 2} : Level(n)) \/ Busy
Spec == Init /\ [][Next]_vars

Complete == half = 0 => file = all
Grows == [][Len(file') >= Len(file) /\ SubSeq(file', 1, Len(file)) = file]_file
=============================================================================
