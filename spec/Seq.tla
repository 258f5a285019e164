-------------------------------- MODULE Seq ---------------------------------
(* Queues, the growable array and chained buffers as sequences.              *)
(* Byte j (from 0) of array element i is Fill(i, j); byte number k of all    *)
(* that was ever put into buffers is Byte(k).                                *)
EXTENDS Integers, Sequences, SequencesExt

Fill(i, j) == (i * 7 + (i \div 256) * 3 + j * 13) % 256
Byte(k) == (k * 31 + (k \div 256) * 17 + 5) % 256

\* of large elements only the ends are looked at
Looked(size) == IF size <= 32 THEN [j \in 1..size |-> j - 1]
                ELSE [j \in 1..32 |-> IF j <= 16 THEN j - 1 ELSE size - 33 + j]

\* q: the queues' members; size, num: of the array; bufs: the chain; puts: bytes put so far
SeqInit == [q |-> [k \in 1..3 |-> <<>>], size |-> 0, num |-> 0, bufs |-> <<>>, puts |-> 0, t |-> {}]

RECURSIVE Joined(_), Total(_)
Joined(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs).data \o Joined(Tail(bs))
Total(bs) == IF bs = <<>> THEN 0 ELSE Len(Head(bs).data) + Total(Tail(bs))

\* what is reported of a buffer: bytes in it, room left, room it has
Shown(b) == <<Len(b.data), b.cap - b.used, b.cap>>

SeqStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P29"}
      listed(q) == e.fwd = q /\ e.back = Reverse(q) /\ e.empty = (q = <<>>)
  IN
  CASE e.e = "qhead" -> LET q == <<e.n>> \o S.q[e.q] IN [S EXCEPT !.q[e.q] = q, !.t = bad(listed(q))]
    [] e.e = "qtail" -> LET q == Append(S.q[e.q], e.n) IN [S EXCEPT !.q[e.q] = q, !.t = bad(listed(q))]
    [] e.e = "qdel" -> LET q == SelectSeq(S.q[e.q], LAMBDA n : n # e.n) IN [S EXCEPT !.q[e.q] = q, !.t = bad(listed(q))]
    [] e.e = "qlist" -> [S EXCEPT !.t = bad(listed(S.q[e.q]))]
    \* the array: an element that cannot be had leaves it as it was
    [] e.e = "anew" -> [S EXCEPT !.size = e.n, !.num = 0, !.t = bad(e.ok)]
    [] e.e = "apush" -> [S EXCEPT !.num = IF e.ok THEN @ + 1 ELSE @, !.t = bad(e.ok = (S.size <= 16000))]
    [] e.e = "aget" ->
         [S EXCEPT !.t = bad(IF e.i \in 1..S.num THEN e.ok /\ e.out = [j \in 1..Len(Looked(S.size)) |-> Fill(e.i, Looked(S.size)[j])]
                             ELSE ~ e.ok)]
    \* buffers
    [] e.e = "bnew" -> [S EXCEPT !.bufs = IF e.ok THEN Append(@, [cap |-> e.n, used |-> 0, data |-> <<>>]) ELSE @,
                                 !.t = bad(e.ok = (e.n <= 16000) /\ (e.ok => e.now = <<0, e.n, e.n>>))]
    [] e.e = "bput" ->
         LET b == S.bufs[e.k]
             fits == e.n <= b.cap - b.used
             c == IF fits THEN [b EXCEPT !.used = @ + e.n, !.data = @ \o [j \in 1..e.n |-> S.puts + j - 1]] ELSE b
         IN [S EXCEPT !.bufs[e.k] = c, !.puts = IF fits THEN @ + e.n ELSE @, !.t = bad(e.ok = fits /\ e.now = Shown(c))]
    [] e.e = "btake" ->
         LET b == S.bufs[e.k]
             c == [b EXCEPT !.data = SubSeq(@, e.n + 1, Len(@))]
         IN [S EXCEPT !.bufs[e.k] = c, !.t = bad(e.now = Shown(c))]
    [] e.e = "bclr" ->
         LET c == [S.bufs[e.k] EXCEPT !.used = 0, !.data = <<>>]
         IN [S EXCEPT !.bufs[e.k] = c, !.t = bad(e.now = Shown(c))]
    [] e.e = "bfree" -> [S EXCEPT !.bufs = <<>>, !.t = {}]
    [] e.e = "blen" -> [S EXCEPT !.t = bad(e.n = Total(S.bufs))]
    [] e.e = "bjoin" ->
         LET d == Joined(S.bufs) IN
         [S EXCEPT !.t = bad(IF Len(d) > 16000 THEN TRUE ELSE e.ok /\ e.out = [j \in 1..Len(d) |-> Byte(d[j])])]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P29"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
