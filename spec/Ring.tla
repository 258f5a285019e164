-------------------------------- MODULE Ring --------------------------------
(* A byte ring as a bounded FIFO.  Byte number k of everything pushed is    *)
(* Pat(k); the bytes stored are those numbered first .. first + len - 1.    *)
EXTENDS Integers, Sequences

Pat(k) == (k * 31 + (k \div 256) * 17 + 5) % 256

RingInit == [cap |-> 0, first |-> 0, len |-> 0, t |-> {}]

RingStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P25"} IN
  CASE e.e = "new" ->
         [cap |-> e.n, first |-> 0, len |-> 0, t |-> bad(e.len = 0 /\ e.free = e.n)]
    [] e.e = "push" ->
         LET fits == e.n <= S.cap - S.len
             l == IF fits THEN S.len + e.n ELSE S.len
         IN [S EXCEPT !.len = l, !.t = bad(e.ok = fits /\ e.len = l /\ e.free = S.cap - l)]
    [] e.e = "pull" ->
         LET k == IF e.n < S.len THEN e.n ELSE S.len
         IN [S EXCEPT !.first = @ + k, !.len = @ - k,
                      !.t = bad(/\ (k > 0 => e.ok)
                                /\ Len(e.out) = k
                                /\ \A i \in 1..Len(e.out) : i <= k => e.out[i] = Pat(S.first + i - 1)
                                /\ e.len = S.len - k /\ e.free = S.cap - (S.len - k))]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P25"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
