------------------------------- MODULE Bytes -------------------------------
(* Operators on byte strings, represented as sequences of numbers 0..255.   *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* the first n bytes / everything after the first n bytes
Take(b, n) == SubSeq(b, 1, Min2(n, Len(b)))
Drop(b, n) == SubSeq(b, n + 1, Len(b))

IsPrefixOf(p, b) == Len(p) <= Len(b) /\ \A i \in 1..Len(p) : p[i] = b[i]

\* k occurs in b as a contiguous run
Occurs(k, b) ==
  \E o \in 0..(Len(b) - Len(k)) : \A i \in 1..Len(k) : b[o + i] = k[i]

\* b up to, and not including, its first zero byte
ZeroTerminated(b) ==
  LET zs == {i \in 1..Len(b) : b[i] = 0}
  IN  IF zs = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in zs : \A j \in zs : i <= j) - 1)

\* zero padded (or cut) to n bytes
Padded(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]

U16(b, i) == b[i] * 256 + b[i + 1]

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
SameText(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lower(a[i]) = Lower(b[i])
=============================================================================
