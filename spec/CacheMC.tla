------------------------------ MODULE CacheMC ------------------------------
\* The name cache as it is built: buckets of entries with an expiry, a record
\* is only added if there is no live one, a sweep drops expired entries.
\* Against it: per name the answer that is live, if any.
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Buckets, Addrs, MaxTtl, Cap, MaxPend

VARIABLES tab,      \* bucket -> sequence of [name, addr, left]
          pend,     \* names being looked up, in the order of the queries
          live,     \* name -> [addr, left] or none (the specification)
          used,     \* the address the last step connected to
          op
vars == <<tab, pend, live, used, op>>

None == [addr |-> 0, left |-> 0]
Bucket(n) == n % Buckets
Find(n) == LET q == tab[Bucket(n)]
               is == {i \in 1..Len(q) : q[i].name = n}
           IN IF is = {} THEN None ELSE LET e == q[CHOOSE i \in is : \A j \in is : i <= j] IN [addr |-> e.addr, left |-> e.left]
Hit(n) == Find(n).left > 0
Without(q, n) == LET is == {i \in 1..Len(q) : q[i].name = n}
                     i == CHOOSE i \in is : \A j \in is : i <= j
                 IN IF is = {} THEN q ELSE [k \in 1..Len(q) - 1 |-> IF k < i THEN q[k] ELSE q[k + 1]]

Init == /\ tab = [b \in 0..Buckets - 1 |-> <<>>]
        /\ pend = <<>> /\ live = [n \in Names |-> None] /\ used = 0 /\ op = <<"start">>

Ask(n) == /\ Hit(n) \/ Len(pend) < MaxPend
          /\ op' = <<"ask", n>>
          /\ IF Hit(n) THEN used' = Find(n).addr /\ UNCHANGED pend
                       ELSE used' = 0 /\ pend' = Append(pend, n)
          /\ UNCHANGED <<tab, live>>

Answer(k, a, ttl) ==
  LET n == pend[k]
      t == IF ttl > Cap THEN Cap ELSE ttl
      b == Bucket(n)
  IN /\ op' = <<"answer", k, a, ttl>>
     /\ pend' = [i \in 1..Len(pend) - 1 |-> IF i < k THEN pend[i] ELSE pend[i + 1]]
     /\ used' = a
     /\ IF Hit(n) \/ ttl = 0 THEN UNCHANGED <<tab, live>>
        ELSE /\ tab' = [tab EXCEPT ![b] = Append(Without(@, n), [name |-> n, addr |-> a, left |-> t])]
             /\ live' = [live EXCEPT ![n] = [addr |-> a, left |-> t]]

Less(x) == IF x.left > 0 THEN [x EXCEPT !.left = @ - 1] ELSE x
Tick == /\ op' = <<"tick">>
        /\ pend' = <<>>             \* a query that old has been given up
        /\ tab' = [b \in DOMAIN tab |-> [i \in 1..Len(tab[b]) |-> Less(tab[b][i])]]
        /\ live' = [n \in Names |-> IF live[n].left <= 1 THEN None ELSE Less(live[n])]
        /\ used' = 0

Sweep == /\ \E b \in DOMAIN tab : \E i \in 1..Len(tab[b]) : tab[b][i].left = 0
         /\ op' = <<"sweep">>
         /\ tab' = [b \in DOMAIN tab |-> SelectSeq(tab[b], LAMBDA e : e.left > 0)]
         /\ used' = 0 /\ UNCHANGED <<pend, live>>

Next == \/ \E n \in Names : Ask(n)
        \/ \E k \in 1..Len(pend), a \in Addrs, t \in 0..MaxTtl : Answer(k, a, t)
        \/ Tick \/ Sweep
Spec == Init /\ [][Next]_vars

\* what is found is exactly what is live
Agrees == \A n \in Names : IF Hit(n) THEN Find(n) = live[n] ELSE live[n] = None
\* an entry once: a later one would be hidden
Once == \A b \in DOMAIN tab : \A i, j \in 1..Len(tab[b]) : tab[b][i].name = tab[b][j].name => i = j
\* no answer outlives the cap
Capped == \A b \in DOMAIN tab : \A i \in 1..Len(tab[b]) : tab[b][i].left <= Cap
\* a name is asked for only if nothing is live, and else its answer is used
Uses == [][\A n \in Names : op' = <<"ask", n>> =>
             IF live[n] = None THEN pend' # pend ELSE pend' = pend /\ used' = live[n].addr]_vars
=============================================================================
