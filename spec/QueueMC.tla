------------------------------ MODULE QueueMC -------------------------------
(* Queues as they are built: members and heads linked in rings by two        *)
(* pointers each.  q is what each queue has to hold.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS Nodes,   \* numbers above those of the heads
          Flaw     \* "none", or how it goes wrong: "head", "tail", "gone"
Heads == {1, 2}
VARIABLES prev, next, q, op
vars == <<prev, next, q, op>>

Init == /\ prev = [x \in Heads \cup Nodes |-> IF x \in Heads THEN x ELSE 0]
        /\ next = prev /\ q = [h \in Heads |-> <<>>] /\ op = <<"new">>

Free(n) == next[n] = 0
In(n) == CHOOSE h \in Heads : \E i \in 1..Len(q[h]) : q[h][i] = n

PutHead(h, n) ==
  /\ Free(n)
  /\ LET f == next[h] IN
     /\ next' = [next EXCEPT ![n] = f, ![h] = n]
     /\ prev' = IF Flaw = "head" /\ f # h THEN [prev EXCEPT ![n] = h] ELSE [[prev EXCEPT ![n] = h] EXCEPT ![f] = n]
  /\ q' = [q EXCEPT ![h] = <<n>> \o @] /\ op' = <<"qhead", h, n>>

PutTail(h, n) ==
  /\ Free(n)
  /\ LET l == prev[h] IN
     /\ next' = [[next EXCEPT ![n] = next[l]] EXCEPT ![l] = n]
     /\ prev' = IF Flaw = "tail" THEN [[prev EXCEPT ![n] = h] EXCEPT ![h] = n] ELSE [[prev EXCEPT ![n] = l] EXCEPT ![next[l]] = n]
  /\ q' = [q EXCEPT ![h] = Append(@, n)] /\ op' = <<"qtail", h, n>>

Unlink(n) ==
  /\ ~ Free(n)
  /\ next' = [[next EXCEPT ![prev[n]] = next[n]] EXCEPT ![n] = 0]
  /\ prev' = IF Flaw = "gone" THEN [prev EXCEPT ![n] = 0] ELSE [[prev EXCEPT ![next[n]] = prev[n]] EXCEPT ![n] = 0]
  /\ LET h == In(n) IN q' = [q EXCEPT ![h] = SelectSeq(@, LAMBDA x : x # n)] /\ op' = <<"qdel", h, n>>

Next == \E n \in Nodes : (\E h \in Heads : PutHead(h, n) \/ PutTail(h, n)) \/ Unlink(n)
Spec == Init /\ [][Next]_vars

\* what is met going round, at most as far as there are members
RECURSIVE Walk(_, _, _, _)
Walk(ptr, h, x, far) == IF x = h \/ far = 0 THEN <<>> ELSE <<x>> \o (IF x = 0 THEN <<>> ELSE Walk(ptr, h, ptr[x], far - 1))
Far == Cardinality(Nodes) + 1
Forward == \A h \in Heads : Walk(next, h, next[h], Far) = q[h]
Backward == \A h \in Heads : Walk(prev, h, prev[h], Far) = Reverse(q[h])
Empty == \A h \in Heads : (prev[h] = h) = (q[h] = <<>>)
=============================================================================
