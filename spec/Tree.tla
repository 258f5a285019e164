-------------------------------- MODULE Tree --------------------------------
(* The ordered tree: a finite set of keys.  Every operation also reports    *)
(* the keys met from left to right, the element count and whether the links *)
(* of all nodes agree with each other.                                      *)
EXTENDS Integers, Sequences, FiniteSets

TreeInit == [set |-> {}, t |-> {}]

TreeShape(set, e) ==
  /\ Len(e.keys) = Cardinality(set)
  /\ {e.keys[i] : i \in 1..Len(e.keys)} = set
  /\ \A i \in 1..(Len(e.keys) - 1) : e.keys[i] < e.keys[i + 1]
  /\ e.num = Cardinality(set)
  /\ e.links

TreeStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P26"} IN
  CASE e.e = "new" -> [set |-> {}, t |-> bad(TreeShape({}, e))]
    [] e.e = "add" -> LET s == S.set \cup {e.k} IN [set |-> s, t |-> bad(e.ok /\ TreeShape(s, e))]
    [] e.e = "del" -> LET s == S.set \ {e.k} IN [set |-> s, t |-> bad(e.ok = (e.k \in S.set) /\ TreeShape(s, e))]
    [] e.e = "find" -> [S EXCEPT !.t = bad(e.found = (e.k \in S.set) /\ TreeShape(S.set, e))]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P26"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
