-------------------------------- MODULE MapMC --------------------------------
(* The keyed store as it is built: buckets holding their entries in the      *)
(* order of insertion.  Several keys share each bucket.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Buckets, Vals
VARIABLES b, m, good, op
vars == <<b, m, good, op>>

Of(k) == k % Buckets
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == b = [i \in 0..(Buckets - 1) |-> <<>>] /\ m = <<>> /\ good = TRUE /\ op = <<"new", Buckets>>

Lookup(k) == LET s == b[Of(k)]
                 h == {i \in 1..Len(s) : s[i][1] = k}
             IN IF h = {} THEN 0 ELSE s[CHOOSE i \in h : \A j \in h : i <= j][2]

Add(k, v) == /\ op' = <<"add", k, v>>
             /\ b' = IF Lookup(k) # 0 THEN b ELSE [b EXCEPT ![Of(k)] = Append(@, <<k, v>>)]
             /\ m' = IF k \in DOMAIN m THEN m ELSE m @@ (k :> v)
             /\ UNCHANGED good
Find(k) == /\ op' = <<"find", k>>
           /\ good' = (Lookup(k) = IF k \in DOMAIN m THEN m[k] ELSE 0)
           /\ UNCHANGED <<b, m>>
Del(k) == /\ op' = <<"del", k>>
          /\ b' = [b EXCEPT ![Of(k)] = SelectSeq(@, LAMBDA x : x[1] # k)]
          /\ m' = Without(m, k)
          /\ UNCHANGED good

Next == \E k \in Keys : Find(k) \/ Del(k) \/ \E v \in Vals : Add(k, v)
Spec == Init /\ [][Next]_vars
IsMap == good /\ \A k \in Keys : Lookup(k) = IF k \in DOMAIN m THEN m[k] ELSE 0
=============================================================================
