------------------------------- MODULE PoolMC -------------------------------
(* The pool as it is built: per class a queue of usable blocks and the set   *)
(* of those handed out; taken from the front, returned at the back.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Classes, N, Slots
VARIABLES usable, held, op
vars == <<usable, held, op>>

Blocks(c) == {<<c, i>> : i \in 1..N}
Init == /\ usable = [c \in Classes |-> [i \in 1..N |-> <<c, i>>]]
        /\ held = <<>>
        /\ op = <<"new", 0>>

\* slot s asks for a block of class c
Alloc(s, c) == /\ s \notin DOMAIN held
               /\ op' = <<"alloc", s, c>>
               /\ IF usable[c] = <<>> THEN UNCHANGED <<usable, held>>
                  ELSE /\ held' = held @@ (s :> Head(usable[c]))
                       /\ usable' = [usable EXCEPT ![c] = Tail(@)]
Free(s) == /\ s \in DOMAIN held
           /\ op' = <<"free", s>>
           /\ usable' = [usable EXCEPT ![held[s][1]] = Append(@, held[s])]
           /\ held' = [x \in DOMAIN held \ {s} |-> held[x]]
Next == \E s \in Slots : Free(s) \/ \E c \in Classes : Alloc(s, c)
Spec == Init /\ [][Next]_vars

Disjoint == \A s, u \in DOMAIN held : s # u => held[s] # held[u]
Conserved == \A c \in Classes :
  LET free == {usable[c][i] : i \in 1..Len(usable[c])}
      used == {held[s] : s \in {x \in DOMAIN held : held[x][1] = c}}
  IN free \cup used = Blocks(c) /\ free \cap used = {} /\ Len(usable[c]) = Cardinality(free)
=============================================================================
