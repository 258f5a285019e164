------------------------------- MODULE PathMC -------------------------------
\* Targets of requests: all sequences of segments up to a length, in a small
\* file system that has the same names inside and outside the document root.
\* The web service as it is built refuses a target that contains "../", puts
\* the rest behind the name of the root, adds the index to a target that ends
\* in "/", and opens what is a regular file then.
EXTENDS Path, FiniteSets

CONSTANTS Segs, MaxLen,
          Flaw          \* "none", "start" (only the first segment is looked at), "decode" (names are decoded afterwards)

VARIABLES t, op
vars == <<t, op>>

Root == <<"top", "web">>
Files == {<<"top", "web", "f">>, <<"top", "web", "i">>, <<"top", "web", "d", "f">>, <<"top", "web", "d", "i">>,
          <<"top", "f">>, <<"top", "i">>, <<"top", "webx", "f">>, <<"top", "d", "f">>, <<"f">>}
Dirs == UNION {{SubSeq(p, 1, k) : k \in 0..Len(p) - 1} : p \in Files}

\* the target is "/" followed by the segments with "/" between them
Index(x) == IF x = <<>> \/ x[Len(x)] = "" THEN (IF x = <<>> THEN <<"i">> ELSE [x EXCEPT ![Len(x)] = "i"]) ELSE x
EndsUp(s) == s \in {"..", "...", "a.."}
Refused(x) == \E k \in 1..Len(x) - 1 : EndsUp(x[k]) /\ (k = 1 \/ Flaw # "start")

\* a directory has to be there to be walked through
RECURSIVE Names(_, _)
Names(at, segs) ==
  IF segs = <<>> THEN at
  ELSE IF at \notin Dirs THEN <<"?">>
  ELSE Names(Go(at, Head(segs)), Tail(segs))
Named(x) == Names(<<>>, Root \o Index(x))
Decoded(x) == [k \in 1..Len(x) |-> IF x[k] = "%2e%2e" /\ Flaw = "decode" THEN ".." ELSE x[k]]
Opened(x) == ~ Refused(x) /\ Named(Decoded(x)) \in Files

\* what the answer to the target has to be, by the specification alone
Verdict(x) == LET n == Named(x)
                  out == \E k \in 1..Len(x) : ~ Starts(Walk(<<>>, Root \o SubSeq(x, 1, k)), Root)
              IN IF out THEN "out" ELSE IF n \in Files THEN "file" ELSE "none"

Init == t = <<>> /\ op = <<Verdict(t)>>
Next == \E s \in Segs : /\ Len(t) < MaxLen
                        /\ t' = Append(t, s)
                        /\ op' = <<Verdict(t')>> \o t'
Spec == Init /\ [][Next]_vars

Contained == Opened(t) => Inside(Root, Root \o Index(Decoded(t)))
\* and what is inside and named without going up is served
Served == Verdict(t) = "file" /\ (\A k \in 1..Len(t) : ~ EndsUp(t[k])) => Opened(t)
=============================================================================
