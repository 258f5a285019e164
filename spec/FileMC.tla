------------------------------- MODULE FileMC -------------------------------
\* A file being sent as a response while somebody else changes its length: its
\* length is declared once, pieces of it are read into a buffer and sent as the
\* client takes them.  The k-th unit of the file is the number k.
EXTENDS Integers, Sequences

CONSTANTS Max,          \* longest file
          Cap,          \* units the buffer takes
          Changes,      \* how often it is changed
          Flaw          \* "none", "over" (reads what there is, not what is left to send), "short" (takes the end of the file for
                        \* the end of the response), "skip" (forgets what a short write has left)

VARIABLES size,         \* of the file now
          declared,     \* as told to the client, -1 before
          at, buf,      \* how much was read, what of it is to be sent
          got,          \* what the client got
          room, left,   \* room the client gives, changes left
          cut,          \* the file has become shorter than declared
          st, op
vars == <<size, declared, at, buf, got, room, left, cut, st, op>>
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ size \in 0..Max /\ declared = -1 /\ at = 0 /\ buf = <<>> /\ got = <<>> /\ room = 0 /\ left = Changes
        /\ cut = FALSE /\ st = "idle" /\ op = <<"file", size>>

(* ---- others *)
Ask == /\ st = "idle" /\ declared' = size /\ st' = "send" /\ op' = <<"ask">>
       /\ UNCHANGED <<size, at, buf, got, room, left, cut>>
Grow(n) == /\ left > 0 /\ ~ cut /\ size + n <= Max + 2
           /\ size' = size + n /\ left' = left - 1 /\ op' = <<"grow", n>>
           /\ UNCHANGED <<declared, at, buf, got, room, cut, st>>
Cut(n) == /\ left > 0 /\ ~ cut /\ n < size
          /\ size' = n /\ left' = left - 1 /\ op' = <<"cut", n>>
          /\ cut' = (st # "idle" /\ n < declared)
          /\ UNCHANGED <<declared, at, buf, got, room, st>>
Take(n) == /\ room = 0 /\ st # "idle" /\ room' = n /\ op' = <<"take", n>>
           /\ UNCHANGED <<size, declared, at, buf, got, left, cut, st>>

(* ---- the worker *)
Quiet == UNCHANGED <<size, declared, left, cut>> /\ op' = <<"work">>
Load == /\ st = "send" /\ buf = <<>> /\ Len(got) < declared
        /\ LET want == IF Flaw = "over" THEN Cap ELSE Min(Cap, declared - Len(got))
               n == Min(want, size - at)
           IN IF n <= 0 THEN st' = (IF Flaw = "short" THEN "kept" ELSE "closed") /\ UNCHANGED <<at, buf>>
              ELSE at' = at + n /\ buf' = [k \in 1..n |-> at + k] /\ UNCHANGED st
        /\ UNCHANGED <<got, room>> /\ Quiet
Send == /\ st = "send" /\ buf # <<>> /\ room > 0
        /\ LET n == Min(room, Len(buf)) IN
             /\ got' = got \o SubSeq(buf, 1, n) /\ room' = room - n
             /\ buf' = IF Flaw = "skip" THEN <<>> ELSE SubSeq(buf, n + 1, Len(buf))
        /\ UNCHANGED <<at, st>> /\ Quiet
Done == /\ st = "send" /\ Len(got) >= declared /\ st' = "kept"
        /\ UNCHANGED <<at, buf, got, room>> /\ Quiet
Work == Load \/ Send \/ Done

Next == Ask \/ Work \/ \E n \in 0..Max : Cut(n) \/ (n > 0 /\ (Grow(n) \/ Take(n)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ WF_vars(Work) /\ WF_vars(\E n \in 1..Max : Take(n))

(* ---- what has to hold *)
Content == got = [k \in 1..Len(got) |-> k]
Framed == declared >= 0 => Len(got) <= declared /\ (st = "kept" => Len(got) = declared)
\* given up only if the file does not have what was promised
Whole == st = "closed" => cut
Ends == <>(st \in {"kept", "closed"})
View == <<size, declared, at, buf, got, room, left, cut, st>>
=============================================================================
