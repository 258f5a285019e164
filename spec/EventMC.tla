------------------------------ MODULE EventMC ------------------------------
\* One wake-up of a worker as it is built: a list of reports, each pointing to
\* the event record of a connection.  Acting on a report may end the connection
\* and the leg paired with it, and may take a new connection whose record is
\* the memory just released.  Ending a connection removes what the list still
\* holds for it.
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Pairs,       \* number of tunnels (two legs each) at the beginning
          News,        \* number of connections that may arrive
          Wakes,       \* number of wake-ups
          Forget       \* what a flawed program leaves in the list: "none", "write", "peer"

Legs == 1..2 * Pairs + News
Slots == 1..2 * Pairs + News
Listener == 0

VARIABLES slot,        \* leg -> its record, 0 if it has none
          owner,       \* record -> the leg it belongs to, 0 if free
          list,        \* reports: [s |-> record, l |-> leg it was made for, w |-> "r" or "w"]
          why,         \* leg -> what makes it ready: "no", "data", "room", "both", "end"
          got,         \* leg -> reports acted on in this wake-up
          ph, wakes, bad, op
vars == <<slot, owner, list, why, got, ph, wakes, bad, op>>

Peer(l) == IF l > 2 * Pairs THEN 0 ELSE IF l % 2 = 1 THEN l + 1 ELSE l - 1
Alive(l) == slot[l] # 0

Init == /\ slot = [l \in Legs |-> IF l <= 2 * Pairs THEN l ELSE 0]
        /\ owner = [s \in Slots |-> IF s <= 2 * Pairs THEN s ELSE 0]
        /\ list = <<>> /\ why = [l \in Legs |-> "no"] /\ got = [l \in Legs |-> {}]
        /\ ph = "sleep" /\ wakes = 0 /\ bad = FALSE /\ op = <<"start">>

\* something happens to a leg before the worker wakes up
Entries(l, y) == CASE y \in {"data", "end"} -> <<[s |-> slot[l], l |-> l, w |-> "r"]>>
                   [] y = "room" -> <<[s |-> slot[l], l |-> l, w |-> "w"]>>
                   [] OTHER -> <<[s |-> slot[l], l |-> l, w |-> "r"], [s |-> slot[l], l |-> l, w |-> "w"]>>
Happen(l, y) == /\ ph = "sleep" /\ wakes < Wakes /\ Alive(l) /\ why[l] = "no"
                /\ why' = [why EXCEPT ![l] = y]
                /\ list' = list \o Entries(l, y)
                /\ op' = <<"happen", l, y>>
                /\ UNCHANGED <<slot, owner, got, ph, wakes, bad>>
Unused == {l \in Legs : l > 2 * Pairs /\ ~ Alive(l) /\ why[l] = "no"}
Arrive == /\ ph = "sleep" /\ wakes < Wakes /\ Unused # {}
          /\ LET l == CHOOSE x \in Unused : \A y \in Unused : x <= y IN
             /\ why' = [why EXCEPT ![l] = "arrive"]
             /\ list' = Append(list, [s |-> Listener, l |-> l, w |-> "r"])
             /\ op' = <<"arrive", l>>
          /\ UNCHANGED <<slot, owner, got, ph, wakes, bad>>
Wake == /\ ph = "sleep" /\ list # <<>>
        /\ ph' = "run" /\ op' = <<"wake">> /\ wakes' = wakes + 1
        /\ UNCHANGED <<slot, owner, list, why, got, bad>>

\* the reports of a leg that is ended are dropped
Drop(q, ls) == LET keep(x) == x.s = Listener \/ x.l \notin ls \/ (Forget = "write" /\ x.w = "w") \/ (Forget = "peer" /\ x.l \in ls /\ Peer(x.l) # 0 /\ x.l # Head(q).l)
               IN SelectSeq(Tail(q), keep)
LowFree == CHOOSE s \in Slots : owner[s] = 0 /\ \A t \in Slots : owner[t] = 0 => s <= t

Act == /\ ph = "run" /\ list # <<>>
       /\ LET e == Head(list) IN
          IF e.s = Listener
          THEN /\ slot' = [slot EXCEPT ![e.l] = LowFree]
               /\ owner' = [owner EXCEPT ![LowFree] = e.l]
               /\ list' = Tail(list)
               /\ got' = [got EXCEPT ![e.l] = @ \cup {"r"}]
               /\ UNCHANGED bad
          ELSE LET l == owner[e.s] IN       \* whose record it is now
               IF l # e.l THEN bad' = TRUE /\ list' = Tail(list) /\ UNCHANGED <<slot, owner, got>>
               ELSE IF why[l] \in {"end", "both"} /\ e.w = "r"
               THEN LET ls == {l} \cup ({Peer(l)} \ {0})
                    IN /\ slot' = [x \in Legs |-> IF x \in ls THEN 0 ELSE slot[x]]
                       /\ owner' = [x \in Slots |-> IF owner[x] \in ls THEN 0 ELSE owner[x]]
                       /\ list' = Drop(list, ls)
                       /\ got' = [got EXCEPT ![l] = @ \cup {"r"}]
                       /\ UNCHANGED bad
               ELSE /\ got' = [got EXCEPT ![l] = @ \cup {e.w}]
                    /\ list' = Tail(list)
                    /\ UNCHANGED <<slot, owner, bad>>
       /\ op' = <<"act">> /\ UNCHANGED <<why, ph, wakes>>

Sleep == /\ ph = "run" /\ list = <<>>
         /\ ph' = "sleep" /\ op' = <<"sleep">>
         /\ why' = [l \in Legs |-> IF l > 2 * Pairs /\ ~ Alive(l) /\ why[l] # "no" THEN "gone" ELSE IF why[l] = "gone" THEN "gone" ELSE "no"]
         /\ got' = [l \in Legs |-> {}]
         /\ UNCHANGED <<slot, owner, list, wakes, bad>>

Next == (\E l \in Legs : Happen(l, "data") \/ Happen(l, "end") \/ Happen(l, "room") \/ Happen(l, "both")) \/ Arrive \/ Wake \/ Act \/ Sleep
Spec == Init /\ [][Next]_vars

\* a report never reaches another connection than the one it was made for
NoStale == ~ bad
\* what is alive has been told everything
AllTold == ph = "run" /\ list = <<>> =>
             \A l \in Legs : Alive(l) /\ why[l] \notin {"no", "gone"} =>
                got[l] = (CASE why[l] = "room" -> {"w"} [] why[l] = "both" -> {"r", "w"} [] OTHER -> {"r"})
Records == \A l \in Legs : Alive(l) => owner[slot[l]] = l
=============================================================================
