------------------------------ MODULE ChainMC -------------------------------
(* Chained buffers as they are built: each an array of bytes with the        *)
(* positions where reading and writing go on; data is what each has to hold. *)
EXTENDS Integers, Sequences
CONSTANTS C1, C2, C3,   \* the buffers' sizes (0: no such buffer)
          MaxN,
          Flaw     \* "none", or how it goes wrong: "clip", "start", "slide"
VARIABLES num, pos, last, cells, data, nxt, joined, op
vars == <<num, pos, last, cells, data, nxt, joined, op>>
Vals == 3
Caps == SelectSeq(<<C1, C2, C3>>, LAMBDA c : c > 0)
Bufs == 1..Len(Caps)

Init == /\ num = 0 /\ pos = [k \in Bufs |-> 0] /\ last = pos
        /\ cells = [k \in Bufs |-> [i \in 0..(Caps[k] - 1) |-> 0]] /\ data = [k \in Bufs |-> <<>>]
        /\ nxt = 1 /\ joined = <<>> /\ op = <<"new">>

New == /\ num < Len(Caps) /\ num' = num + 1 /\ op' = <<"bnew", Caps[num + 1]>> /\ joined' = <<>>
       /\ UNCHANGED <<pos, last, cells, data, nxt>>

Put(k, n) ==
  /\ k <= num /\ op' = <<"bput", k, n>> /\ joined' = <<>>
  /\ LET room == Caps[k] - last[k]
         m == IF n <= room THEN n ELSE IF Flaw = "clip" THEN room ELSE 0
     IN /\ cells' = [cells EXCEPT ![k] = [i \in DOMAIN @ |-> IF i >= last[k] /\ i < last[k] + m THEN (nxt + i - last[k]) % Vals ELSE @[i]]]
        /\ last' = [last EXCEPT ![k] = @ + m]
        /\ IF n <= room THEN /\ data' = [data EXCEPT ![k] = @ \o [i \in 1..n |-> (nxt + i - 1) % Vals]]
                             /\ nxt' = (nxt + n) % Vals
           ELSE UNCHANGED <<data, nxt>>
  /\ UNCHANGED <<num, pos>>

Take(k, n) ==
  /\ k <= num /\ n <= last[k] - pos[k] /\ op' = <<"btake", k, n>> /\ joined' = <<>>
  /\ pos' = [pos EXCEPT ![k] = @ + n] /\ data' = [data EXCEPT ![k] = SubSeq(@, n + 1, Len(@))]
  /\ UNCHANGED <<num, last, cells, nxt>>

Clear(k) ==
  /\ k <= num /\ op' = <<"bclr", k>> /\ joined' = <<>>
  /\ pos' = [pos EXCEPT ![k] = 0] /\ last' = [last EXCEPT ![k] = IF Flaw = "slide" THEN last[k] - pos[k] ELSE 0]
  /\ data' = [data EXCEPT ![k] = <<>>]
  /\ UNCHANGED <<num, cells, nxt>>

Held(k) == [i \in 1..(last[k] - pos[k]) |-> cells[k][(IF Flaw = "start" THEN 0 ELSE pos[k]) + i - 1]]
RECURSIVE All(_), Want(_)
All(k) == IF k > num THEN <<>> ELSE Held(k) \o All(k + 1)
Want(k) == IF k > num THEN <<>> ELSE data[k] \o Want(k + 1)

Join == /\ num > 0 /\ op' = <<"bjoin">> /\ joined' = All(1) /\ UNCHANGED <<num, pos, last, cells, data, nxt>>

Next == New \/ Join \/ \E k \in Bufs : Clear(k) \/ \E n \in 1..MaxN : Put(k, n) \/ Take(k, n)
Spec == Init /\ [][Next]_vars

Same == \A k \in Bufs : last[k] - pos[k] = Len(data[k]) /\ (Flaw = "start" \/ Held(k) = data[k])
Joins == op[1] = "bjoin" => joined = Want(1)
Bounds == \A k \in Bufs : 0 <= pos[k] /\ pos[k] <= last[k] /\ last[k] <= Caps[k]
=============================================================================
