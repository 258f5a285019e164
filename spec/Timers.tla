------------------------------- MODULE Timers -------------------------------
(* Timers with deadlines.  "run" lets every due timer fire; operations made  *)
(* by a firing timer appear between "fire" and the next event of the run.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TimersInit == [now |-> 0, due |-> <<>>, cap |-> 0, running |-> FALSE, t |-> {}]

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Earliest(f) == CHOOSE d \in {f[k] : k \in DOMAIN f} : \A k \in DOMAIN f : d <= f[k]

TimersStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P12"} IN
  CASE e.e = "arm" ->
         LET rest == Without(S.due, e.k)
             n == Cardinality(DOMAIN rest)
         IN IF e.ok THEN [S EXCEPT !.due = rest @@ (e.k :> S.now + e.d), !.t = bad(S.cap = 0 \/ n < S.cap)]
            \* only a full set of timers may refuse; how many that is is learnt
            ELSE [S EXCEPT !.due = rest, !.cap = IF @ = 0 THEN n ELSE @, !.t = bad((S.cap = 0 \/ n = S.cap) /\ n >= 1000)]
    [] e.e = "del" -> [S EXCEPT !.due = Without(@, e.k), !.t = bad(e.ok)]
    [] e.e = "adv" -> [S EXCEPT !.now = @ + e.n, !.t = {}]
    [] e.e = "run" -> [S EXCEPT !.running = TRUE, !.t = {}]
    [] e.e = "fire" ->
         [S EXCEPT !.due = Without(@, e.k),
                   !.t = bad(/\ S.running
                             /\ e.k \in DOMAIN S.due
                             /\ e.k \in DOMAIN S.due => /\ S.due[e.k] <= S.now
                                                        /\ S.due[e.k] = Earliest(S.due))]
    [] e.e = "ran" ->
         [S EXCEPT !.running = FALSE,
                   !.t = bad(/\ \A k \in DOMAIN S.due : S.due[k] > S.now
                             /\ DOMAIN S.due # {} => e.wait <= Earliest(S.due) - S.now
                             /\ e.wait >= 0)]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P12"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
