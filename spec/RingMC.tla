------------------------------- MODULE RingMC -------------------------------
(* The ring as it is built: an array, a read and a write position that wrap, *)
(* and a count.  q is the FIFO it has to be.  `op' is the last operation;    *)
(* paths through the state graph are replayed into the real code.            *)
EXTENDS Integers, Sequences
CONSTANTS Cap, MaxN
VARIABLES pos, last, datan, cells, q, nxt, good, op
vars == <<pos, last, datan, cells, q, nxt, good, op>>

Vals == Cap + 1
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ pos = 0 /\ last = 0 /\ datan = 0
        /\ cells = [i \in 0..(Cap - 1) |-> 0]
        /\ q = <<>> /\ nxt = 0 /\ good = TRUE /\ op = <<"new", Cap>>

Fresh(n) == [i \in 1..n |-> (nxt + i - 1) % Vals]

Push(n) ==
  /\ op' = <<"push", n>>
  /\ IF n > Cap - datan THEN UNCHANGED <<pos, last, datan, cells, q, nxt, good>>
     ELSE LET d == Fresh(n)
              tail == Cap - last
              wrap == pos <= last /\ tail < n
          IN /\ cells' = [i \in 0..(Cap - 1) |->
                            LET k == IF ~ wrap THEN i - last
                                     ELSE IF i >= last THEN i - last
                                     ELSE tail + i
                            IN IF k >= 0 /\ k < n /\ (wrap \/ i >= last) THEN d[k + 1] ELSE cells[i]]
             /\ last' = IF wrap THEN n - tail ELSE last + n
             /\ datan' = datan + n
             /\ q' = q \o d
             /\ nxt' = (nxt + n) % Vals
             /\ UNCHANGED <<pos, good>>

Pull(n) ==
  /\ op' = <<"pull", n>>
  /\ IF datan = 0 THEN UNCHANGED <<pos, last, datan, cells, q, nxt, good>>
     ELSE LET tail == Cap - pos
              k == IF pos < last THEN Min2(n, last - pos)
                   ELSE IF tail >= n THEN n ELSE tail + Min2(n - tail, last)
              wrap == pos >= last /\ tail < n
              got == [i \in 1..k |-> cells[(pos + i - 1) % Cap]]
          IN /\ good' = (k = Min2(n, Len(q)) /\ got = SubSeq(q, 1, k))
             /\ pos' = IF wrap THEN k - tail ELSE pos + k
             /\ datan' = datan - k
             /\ q' = SubSeq(q, k + 1, Len(q))
             /\ UNCHANGED <<last, cells, nxt>>

Next == \E n \in 1..MaxN : Push(n) \/ Pull(n)
Spec == Init /\ [][Next]_vars

Fifo == /\ good
        /\ datan = Len(q)
        /\ \A i \in 1..Len(q) : q[i] = cells[(pos + i - 1) % Cap]
Bounds == pos \in 0..Cap /\ last \in 0..Cap /\ datan \in 0..Cap
=============================================================================
