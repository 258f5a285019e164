----------------------------- MODULE KeySearchMC -----------------------------
(* The key search as it is built: a trie with fail links made level by level *)
(* and end marks inherited along them, against plain occurrence, for every   *)
(* set of short keys and every short text.                                   *)
EXTENDS Bytes, FiniteSets
CONSTANTS Alpha, MaxKey, MaxKeys, MaxText
VARIABLES keys, text, op
vars == <<keys, text, op>>

Words(n) == UNION {[1..k -> Alpha] : k \in 0..n}
KeySets == {ks \in SUBSET (Words(MaxKey) \ {<<>>}) : ks # {} /\ Cardinality(ks) <= MaxKeys}

\* the trie's nodes are the prefixes of the keys
Nodes(ks) == UNION {{SubSeq(k, 1, i) : i \in 0..Len(k)} : k \in ks}
IsSuffix(s, w) == Len(s) <= Len(w) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
\* the fail link of a node: the longest proper suffix that is a node
Fail(ns, n) == CHOOSE s \in ns : /\ IsSuffix(s, n) /\ s # n
                                 /\ \A u \in ns : IsSuffix(u, n) /\ u # n => Len(u) <= Len(s)
RECURSIVE Marked(_, _, _), Go(_, _, _), Run(_, _, _, _)
Marked(ks, ns, n) == n # <<>> /\ (n \in ks \/ Marked(ks, ns, Fail(ns, n)))
Go(ns, n, a) == IF Append(n, a) \in ns THEN Append(n, a) ELSE IF n = <<>> THEN <<>> ELSE Go(ns, Fail(ns, n), a)
Run(ks, ns, n, w) ==
  IF w = <<>> THEN FALSE
  ELSE LET g == Go(ns, n, Head(w)) IN Marked(ks, ns, g) \/ Run(ks, ns, g, Tail(w))

Init == /\ keys \in KeySets /\ text = <<>> /\ op = 0
Next == /\ Len(text) < MaxText /\ \E a \in Alpha : text' = Append(text, a)
        /\ UNCHANGED <<keys, op>>
Spec == Init /\ [][Next]_vars
Exact == Run(keys, Nodes(keys), <<>>, text) = \E k \in keys : Occurs(k, text)
=============================================================================
