-------------------------------- MODULE Path --------------------------------
\* Names in a file system.  A path is a sequence of segments; what it names is
\* found by walking: "" and "." stay, ".." goes up (and stays at the top).
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Go(at, s) == CASE s \in {"", "."} -> at
               [] s = ".." -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
               [] OTHER -> Append(at, s)
Walk(at, segs) == FoldLeft(Go, at, segs)

Starts(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q

\* does what segs names (from the top) lie below the directory root?
Inside(root, segs) == LET p == Walk(<<>>, segs) IN Len(p) > Len(root) /\ Starts(p, root)
Within(root, segs) == Starts(Walk(<<>>, segs), root)
\* a path without detours
Plain(segs) == \A i \in 1..Len(segs) : segs[i] \notin {"", ".", ".."}
=============================================================================
