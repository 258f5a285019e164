--------------------------------- MODULE Map ---------------------------------
(* The keyed store: a partial function from byte strings to byte strings.   *)
EXTENDS Integers, Sequences, TLC

MapInit == [m |-> <<>>, t |-> {}]

MapStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P24"} IN
  CASE e.e = "new" -> MapInit
    [] e.e = "add" ->
         [m |-> IF e.k \in DOMAIN S.m THEN S.m ELSE S.m @@ (e.k :> e.v), t |-> bad(e.ok)]
    [] e.e = "find" ->
         [S EXCEPT !.t = bad(/\ e.found = (e.k \in DOMAIN S.m)
                             /\ e.found /\ e.k \in DOMAIN S.m => e.v = S.m[e.k])]
    [] e.e = "del" ->
         [m |-> [k \in DOMAIN S.m \ {e.k} |-> S.m[k]], t |-> {}]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P24"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
