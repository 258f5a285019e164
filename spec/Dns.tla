--------------------------------- MODULE Dns ---------------------------------
(* DNS messages (RFC 1035) for A-record lookups.                            *)
EXTENDS Bytes, FiniteSets

TtlMax == 10800          \* seconds an answer may be kept at most

(* ---- names ---- *)
\* split at dots into labels
RECURSIVE Labels(_, _)
Labels(name, cur) ==
  IF name = <<>> THEN <<cur>>
  ELSE IF Head(name) = 46 THEN <<cur>> \o Labels(Tail(name), <<>>)
  ELSE Labels(Tail(name), Append(cur, Head(name)))

RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<0>> ELSE <<Len(Head(ls))>> \o Head(ls) \o Flat(Tail(ls))

ValidName(name) ==
  /\ name # <<>>
  /\ Len(name) <= 253
  /\ LET ls == Labels(name, <<>>) IN \A i \in 1..Len(ls) : Len(ls[i]) \in 1..63

WireName(name) == Flat(Labels(name, <<>>))

\* the part of a query after its two id bytes and flags
QuestionOf(name) == WireName(name) \o <<0, 1, 0, 1>>

\* A query: id, flags, one question, nothing else
IsQueryFor(q, name) ==
  /\ Len(q) >= 12
  /\ q[3] < 128                             \* a query, not a response
  /\ U16(q, 5) = 1 /\ U16(q, 7) = 0 /\ U16(q, 9) = 0 /\ U16(q, 11) = 0
  /\ Drop(q, 12) = QuestionOf(name)

(* ---- replies ---- *)
\* Position after the (possibly compressed) name starting at p; 0 = malformed
RECURSIVE SkipName(_, _)
SkipName(b, p) ==
  IF p > Len(b) THEN 0
  ELSE IF b[p] = 0 THEN p + 1
  ELSE IF b[p] >= 192 THEN (IF p + 1 <= Len(b) THEN p + 2 ELSE 0)
  ELSE IF b[p] >= 64 THEN 0
  ELSE SkipName(b, p + 1 + b[p])

TtlAt(b, p) ==
  IF b[p] > 0 \/ b[p + 1] > 0 THEN TtlMax
  ELSE Min2(U16(b, p + 2), TtlMax)

\* The answer records: as many complete ones as there are, and whether all
\* n announced ones are there.
RECURSIVE Answers(_, _, _)
Answers(b, p, n) ==
  IF n = 0 THEN [all |-> TRUE, a |-> {}]
  ELSE LET q == SkipName(b, p) IN
       IF q = 0 \/ q + 9 > Len(b) THEN [all |-> FALSE, a |-> {}]
       ELSE LET rdlen == U16(b, q + 8)
                e == q + 10 + rdlen
            IN IF e - 1 > Len(b) THEN [all |-> FALSE, a |-> {}]
               ELSE LET rest == Answers(b, e, n - 1)
                        isA == U16(b, q) = 1 /\ rdlen = 4
                    IN [all |-> rest.all,
                        a |-> IF isA THEN rest.a \cup {[addr |-> SubSeq(b, q + 10, q + 13), ttl |-> TtlAt(b, q + 4)]}
                              ELSE rest.a]

\* r is a reply to the query q for `name'
IsReplyTo(r, q, name) ==
  /\ Len(r) >= 12
  /\ r[1] = q[1] /\ r[2] = q[2]
  /\ U16(r, 5) = 1
  /\ LET e == 12 + Len(WireName(name)) + 4 IN
     /\ Len(r) >= e
     /\ SameText(SubSeq(r, 13, e - 4), WireName(name))

\* it also repeats the type and class asked for; a reply that does not is
\* either refused or taken for its answers
SameKind(r, name) ==
  LET e == 12 + Len(WireName(name)) + 4 IN SubSeq(r, e - 3, e) = <<0, 1, 0, 1>>

\* What a reply means: the addresses it gives and whether it is well formed
Meaning(r, q, name) ==
  IF ~ IsReplyTo(r, q, name) THEN [all |-> FALSE, a |-> {}]
  ELSE LET m == Answers(r, 12 + Len(WireName(name)) + 4 + 1, U16(r, 7))
       IN [m EXCEPT !.all = @ /\ SameKind(r, name)]
=============================================================================
