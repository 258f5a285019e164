------------------------------ MODULE KeySearch ------------------------------
(* Looking for configured keys in a presented text.                          *)
EXTENDS Bytes

KeyInit(keys) == [keys |-> {k \in keys : k # <<>>}, t |-> {}]

KeyStep(S, e) ==
  CASE e.e = "find" -> [S EXCEPT !.t = IF e.found = (\E k \in S.keys : Occurs(k, e.k)) THEN {} ELSE {"P04"}]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P04"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
