-------------------------------- MODULE Pool --------------------------------
(* The memory pool: size classes of a fixed number of blocks each.  How many *)
(* blocks a class has is learnt when it is first exhausted (0 = not known    *)
(* yet) and may not change afterwards.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ClassSizes == <<512, 1024, 2048, 4096, 8192, 16384>>
Classes == 1..Len(ClassSizes)
\* the class that serves a size, 0 if none does
ClassOf(n) ==
  LET c == {i \in Classes : n <= ClassSizes[i]}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

PoolInit == [cap |-> [c \in Classes |-> 0], used |-> [c \in Classes |-> 0], blk |-> <<>>, t |-> {}]

PoolStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P15"} IN
  CASE e.e = "alloc" ->
         LET c == ClassOf(e.n)
             full == S.cap[c] # 0 /\ S.used[c] = S.cap[c]
         IN IF c = 0 THEN [S EXCEPT !.t = bad(~ e.ok)]
            ELSE IF e.ok
            THEN [S EXCEPT !.used[c] = @ + 1, !.blk = (e.k :> c) @@ @, !.t = bad(e.zero /\ ~ e.hit /\ ~ full)]
            \* a failure with fewer blocks in use than were available before
            ELSE [S EXCEPT !.cap[c] = IF @ = 0 THEN S.used[c] ELSE @, !.t = bad(full \/ S.cap[c] = 0)]
    [] e.e = "free" ->
         LET c == S.blk[e.k] IN
         [S EXCEPT !.used[c] = @ - 1, !.blk = [k \in DOMAIN @ \ {e.k} |-> @[k]], !.t = bad(e.intact /\ e.ok)]
    [] e.e = "drain" ->
         LET c == ClassOf(e.n) IN
         IF c = 0 THEN [S EXCEPT !.t = bad(e.got = 0)]
         ELSE [S EXCEPT !.used[c] = @ + e.got, !.cap[c] = IF @ = 0 THEN S.used[c] + e.got ELSE @,
                        !.t = bad(e.zero /\ ~ e.hit /\ (S.cap[c] # 0 => S.used[c] + e.got = S.cap[c]))]
    [] e.e = "release" ->
         [S EXCEPT !.used = [c \in Classes |-> @[c] - e.by[c]], !.t = bad(e.intact /\ e.ok)]
    [] e.e = "check" -> [S EXCEPT !.t = bad(e.intact)]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P15"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
