------------------------------- MODULE DnsMC -------------------------------
\* Replies of the resolver put together from records, with any number of
\* answers announced and cut off anywhere; the reading of the answer section
\* as it is built (walk the bytes, take the first complete address record)
\* against what the reply means (Dns.tla).
EXTENDS Dns

CONSTANTS MaxRecs,       \* records in a reply
          MaxCount,      \* answers announced
          Flaw           \* "none", "edge" (a record may end behind the message), "type" (any four bytes are an address),
                         \* "rest" (goes on behind the answers announced), "label" (a name with a pointer behind labels ends there)

VARIABLES recs, count, cut, op
vars == <<recs, count, cut, op>>

Name == <<97>>
Owners == << <<192, 12>>, <<1, 97, 0>>, <<1, 98, 192, 12>>, <<0>> >>
\* type, rdata
Kinds == << [t |-> 1, d |-> <<1, 2, 3, 4>>], [t |-> 1, d |-> <<192, 12, 0>>], [t |-> 5, d |-> <<192, 12>>], [t |-> 28, d |-> <<0, 1, 0, 4>>] >>
Record(r) == Owners[r.o] \o <<0, Kinds[r.k].t, 0, 1, 0, 0, 0, 60, 0, Len(Kinds[r.k].d)>> \o
             (IF Kinds[r.k].t = 1 /\ Len(Kinds[r.k].d) = 4 THEN <<1, 2, 3, r.n>> ELSE Kinds[r.k].d)
RECURSIVE AllOf(_)
AllOf(q) == IF q = <<>> THEN <<>> ELSE Record(Head(q)) \o AllOf(Tail(q))
Query == <<190, 239, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0>> \o QuestionOf(Name)
Full == <<190, 239, 129, 128, 0, 1, 0, count, 0, 0, 0, 0>> \o QuestionOf(Name) \o AllOf(recs)
Msg == IF cut < 0 THEN Full ELSE SubSeq(Full, 1, Len(QuestionOf(Name)) + 12 + cut)

\* ---- as it is built; positions begin at 1, End is behind the message
End(b) == Len(b) + 1
RECURSIVE Skip(_, _)
Skip(b, p) == IF p >= End(b) THEN p
              ELSE IF b[p] >= 192 THEN p + 2
              ELSE IF b[p] = 0 THEN p + 1
              ELSE IF Flaw = "label" THEN p + 1 + b[p]
              ELSE Skip(b, p + 1 + b[p])
RECURSIVE Scan(_, _, _)
Scan(b, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET q == Skip(b, p) IN
       IF End(b) - q < 10 THEN <<>>
       ELSE LET len == U16(b, q + 8)
                d == q + 10
            IN IF Flaw # "edge" /\ End(b) - d < len THEN <<>>
               ELSE IF (U16(b, q) = 1 \/ Flaw = "type") /\ len = 4 THEN (IF End(b) - d < 4 THEN <<0, 0, 0, 0>> ELSE SubSeq(b, d, d + 3))
               ELSE Scan(b, d + len, n - 1)
Found(b) == Scan(b, 12 + Len(QuestionOf(Name)) + 1, IF Flaw = "rest" THEN 9 ELSE count)

Init == recs = <<>> /\ count \in 0..MaxCount /\ cut = -1 /\ op = <<"reply", 0, 0, 0, 0, 0, 0, count, -1>>
At(i, f) == IF i > Len(recs') THEN 0 ELSE IF f = "o" THEN recs'[i].o ELSE recs'[i].k
Describe == op' = <<"reply", At(1, "o"), At(1, "k"), At(2, "o"), At(2, "k"), At(3, "o"), At(3, "k"), count', cut'>>
Add == /\ cut = -1 /\ Len(recs) < MaxRecs
       /\ \E o \in 1..Len(Owners), k \in 1..Len(Kinds) : recs' = Append(recs, [o |-> o, k |-> k, n |-> Len(recs) + 1])
       /\ UNCHANGED <<count, cut>> /\ Describe
CutOff == /\ cut = -1 /\ recs # <<>>
          /\ \E k \in 0..Len(AllOf(recs)) - 1 : cut' = k
          /\ UNCHANGED <<recs, count>> /\ Describe
Next == Add \/ CutOff
Spec == Init /\ [][Next]_vars

M == Meaning(Msg, Query, Name)
Right == Found(Msg) # <<>> => \E x \in M.a : x.addr = Found(Msg)
Finds == M.all /\ M.a # {} => Found(Msg) # <<>>
=============================================================================
