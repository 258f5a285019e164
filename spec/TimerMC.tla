------------------------------- MODULE TimerMC -------------------------------
(* The timers as they are built: a binary heap of deadlines in an array with *)
(* the position of every timer remembered.  Deadlines are relative to now.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Timers, MaxDelay
VARIABLES heap, due, good, op
vars == <<heap, due, good, op>>
\* heap: sequence of timers; due: timer -> remaining time
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Swap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]

RECURSIVE Up(_, _, _), Down(_, _, _)
Up(h, d, i) == IF i > 1 /\ d[h[i]] < d[h[i \div 2]] THEN Up(Swap(h, i, i \div 2), d, i \div 2) ELSE h
Down(h, d, i) ==
  IF 2 * i > Len(h) THEN h
  ELSE LET c == IF 2 * i + 1 <= Len(h) /\ ~ (d[h[2 * i]] < d[h[2 * i + 1]]) THEN 2 * i + 1 ELSE 2 * i
       IN IF d[h[i]] >= d[h[c]] THEN Down(Swap(h, i, c), d, c) ELSE h

Insert(h, d, k) == LET g == Append(h, k) IN Up(g, d, Len(g))
Pos(h, k) == CHOOSE i \in 1..Len(h) : h[i] = k
Remove(h, d, k) ==
  LET i == Pos(h, k)
      t == h[Len(h)]
      g == SubSeq(h, 1, Len(h) - 1)
  IN IF i = Len(h) THEN g
     ELSE LET g2 == [g EXCEPT ![i] = t]
              u == Up(g2, d, i)
          IN Down(u, d, Pos(u, t))

Init == heap = <<>> /\ due = <<>> /\ good = TRUE /\ op = <<"new", 0>>

Arm(k, n) ==
  LET h == IF k \in DOMAIN due THEN Remove(heap, due, k) ELSE heap
      d == Without(due, k) @@ (k :> n)
  IN op' = <<"arm", k, n>> /\ due' = d /\ heap' = Insert(h, d, k) /\ UNCHANGED good
Cancel(k) ==
  /\ op' = <<"del", k>>
  /\ heap' = IF k \in DOMAIN due THEN Remove(heap, due, k) ELSE heap
  /\ due' = Without(due, k)
  /\ UNCHANGED good
\* time passes and the due timers fire
RECURSIVE Fire(_, _, _)
Fire(h, d, ok) ==
  IF h = <<>> THEN <<h, d, ok>>
  ELSE IF d[h[1]] > 0 THEN <<h, d, ok>>
  ELSE LET k == h[1] IN Fire(Remove(h, d, k), Without(d, k), ok /\ \A x \in DOMAIN d : d[k] <= d[x])
Tick(n) ==
  LET d == [k \in DOMAIN due |-> due[k] - n]
      r == Fire(heap, d, TRUE)
  IN op' = <<"adv", n>> /\ heap' = r[1] /\ due' = r[2] /\ good' = (r[3] /\ \A k \in DOMAIN r[2] : r[2][k] > 0)

Next == \/ \E k \in Timers : Cancel(k) \/ \E n \in 0..MaxDelay : Arm(k, n)
        \/ \E n \in 1..2 : Tick(n)
Spec == Init /\ [][Next]_vars

HeapOrder == \A i \in 2..Len(heap) : due[heap[i \div 2]] <= due[heap[i]]
Same == {heap[i] : i \in 1..Len(heap)} = DOMAIN due /\ Len(heap) = Cardinality(DOMAIN due)
Good == good
=============================================================================
