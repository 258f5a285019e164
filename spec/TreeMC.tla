------------------------------- MODULE TreeMC -------------------------------
(* The tree as it is built: unbalanced, a node with two children replaced by *)
(* the smallest one of its right subtree when it is deleted.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Keys
VARIABLES tree, set, op
vars == <<tree, set, op>>

Nil == <<>>
Node(k, l, r) == <<k, l, r>>

RECURSIVE Ins(_, _), Least(_), Rem(_, _), InOrder(_)
Ins(t, k) == IF t = Nil THEN Node(k, Nil, Nil)
             ELSE IF k > t[1] THEN Node(t[1], t[2], Ins(t[3], k))
             ELSE Node(t[1], Ins(t[2], k), t[3])
Least(t) == IF t[2] = Nil THEN t[1] ELSE Least(t[2])
Rem(t, k) == IF t = Nil THEN Nil
             ELSE IF k > t[1] THEN Node(t[1], t[2], Rem(t[3], k))
             ELSE IF k < t[1] THEN Node(t[1], Rem(t[2], k), t[3])
             ELSE IF t[2] = Nil THEN t[3]
             ELSE IF t[3] = Nil THEN t[2]
             ELSE LET m == Least(t[3]) IN Node(m, t[2], Rem(t[3], m))
InOrder(t) == IF t = Nil THEN <<>> ELSE InOrder(t[2]) \o <<t[1]>> \o InOrder(t[3])

Init == tree = Nil /\ set = {} /\ op = <<"new", 0>>
Add(k) == k \notin set /\ op' = <<"add", k>> /\ tree' = Ins(tree, k) /\ set' = set \cup {k}
Del(k) == op' = <<"del", k>> /\ tree' = Rem(tree, k) /\ set' = set \ {k}
Next == \E k \in Keys : Add(k) \/ Del(k)
Spec == Init /\ [][Next]_vars

Ordered == LET s == InOrder(tree) IN
  /\ {s[i] : i \in 1..Len(s)} = set
  /\ Len(s) = Cardinality(set)
  /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
=============================================================================
