------------------------------- MODULE WebMC -------------------------------
\* A web connection as it is served: one buffer for heads, bodies read apart,
\* what follows a request kept for the next one, responses sent in pieces.
\* The client sends requests in any pieces, several ahead, and reads when it
\* likes.  A unit stands for a piece of a request or response.
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cap,          \* units the buffer takes
          Heads, Bodies, Rsps,   \* lengths: of heads (>= 1), bodies, responses (>= 1)
          MaxReqs, MaxRoom,
          Flaw          \* "none", "slide" (leftover not moved to the front), "greedy" (body takes what follows),
                        \* "drop" (leftover forgotten), "early" (answers before the body is there), "hasty" (next response before the rest of the last)

VARIABLES reqs,         \* requests begun by the client: [h, b, r, keep]
          pushed,       \* units of all of them sent so far
          net,          \* units not yet read: <<request, part, index>>
          buf, pos, base,  \* the buffer, how much of it is consumed, where it begins in its memory
          cur,          \* number of the request being served
          ph, body, left,  \* phase, body units taken, response units left
          room, got,    \* room the client gives, response units it got: sequence of request numbers
          st, op
vars == <<reqs, pushed, net, buf, pos, base, cur, ph, body, left, room, got, st, op>>

Req == [h : Heads, b : Bodies, r : Rsps, keep : BOOLEAN]
Units(i) == reqs[i].h + reqs[i].b
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Units(n) + Total(n - 1)
\* the k-th unit the client sends
UnitOf(k) == LET i == CHOOSE i \in 1..Len(reqs) : Total(i - 1) < k /\ k <= Total(i)
                 j == k - Total(i - 1)
             IN IF j <= reqs[i].h THEN <<i, "h", j>> ELSE <<i, "b", j - reqs[i].h>>

Init == /\ reqs = <<>> /\ pushed = 0 /\ net = <<>> /\ buf = <<>> /\ pos = 0 /\ base = 0 /\ cur = 1
        /\ ph = "head" /\ body = <<>> /\ left = 0 /\ room = MaxRoom /\ got = <<>> /\ st = "open" /\ op = <<"start">>

(* ---- the client *)
Begin(q) == /\ Len(reqs) < MaxReqs /\ st = "open"
            /\ \A i \in 1..Len(reqs) : reqs[i].keep       \* after the last one nothing follows
            /\ reqs' = Append(reqs, q)
            /\ op' = <<"req", q.h, q.b, q.r, IF q.keep THEN 1 ELSE 0>>
            /\ UNCHANGED <<pushed, net, buf, pos, base, cur, ph, body, left, room, got, st>>
Push(n) == /\ pushed + n <= Total(Len(reqs)) /\ st = "open"
           /\ net' = net \o [k \in 1..n |-> UnitOf(pushed + k)]
           /\ pushed' = pushed + n
           /\ op' = <<"push", n>>
           /\ UNCHANGED <<reqs, buf, pos, base, cur, ph, body, left, room, got, st>>
Read == /\ room < MaxRoom
        /\ room' = MaxRoom /\ op' = <<"read">>
        /\ UNCHANGED <<reqs, pushed, net, buf, pos, base, cur, ph, body, left, got, st>>

(* ---- the worker *)
Quiet == UNCHANGED <<reqs, pushed, room, got>> /\ op' = <<"work">>
Fresh == cur <= Len(reqs)
\* the head: read what fits, then look at it
Fill == /\ st = "open" /\ ph = "head" /\ pos = Len(buf) /\ net # <<>> /\ base + Len(buf) < Cap
        /\ LET n == IF Len(net) < Cap - base - Len(buf) THEN Len(net) ELSE Cap - base - Len(buf)
           IN buf' = buf \o SubSeq(net, 1, n) /\ net' = SubSeq(net, n + 1, Len(net))
        /\ UNCHANGED <<pos, base, cur, ph, body, left, st>> /\ Quiet
Full == /\ st = "open" /\ ph = "head" /\ pos = Len(buf) /\ net # <<>> /\ base + Len(buf) = Cap
        /\ st' = "closed" /\ UNCHANGED <<net, buf, pos, base, cur, ph, body, left>> /\ Quiet
Look == /\ st = "open" /\ ph = "head" /\ pos < Len(buf)
        /\ LET u == buf[pos + 1]
               q == reqs[cur]
               last == u = <<cur, "h", q.h>>
               rest == Len(buf) - pos - 1
               n == IF Flaw = "greedy" THEN (IF q.b = 0 THEN 0 ELSE rest) ELSE IF rest < q.b THEN rest ELSE q.b
           IN IF u[2] # "h" \/ u[1] # cur THEN st' = "confused" /\ UNCHANGED <<pos, ph, body>>
              ELSE IF ~ last THEN pos' = pos + 1 /\ UNCHANGED <<st, ph, body>>
              ELSE /\ ph' = "body" /\ body' = SubSeq(buf, pos + 2, pos + 1 + n)
                   /\ pos' = pos + 1 + n /\ UNCHANGED st
        /\ UNCHANGED <<net, buf, base, cur, left>> /\ Quiet
Enough == Len(body) >= reqs[cur].b \/ Flaw = "early"
Body == /\ st = "open" /\ ph = "body" /\ ~ Enough /\ net # <<>>
        /\ LET want == reqs[cur].b - Len(body)
               n == IF Len(net) < want THEN Len(net) ELSE want
           IN body' = body \o SubSeq(net, 1, n) /\ net' = SubSeq(net, n + 1, Len(net))
        /\ UNCHANGED <<buf, pos, base, cur, ph, left, st>> /\ Quiet
Answer == /\ st = "open" /\ ph = "body" /\ Enough
          /\ ph' = "rsp" /\ left' = reqs[cur].r
          /\ UNCHANGED <<net, buf, pos, base, cur, body, st>> /\ Quiet
Send == /\ st = "open" /\ ph = "rsp" /\ left > 0 /\ room > 0
        /\ \E n \in 1..(IF left < room THEN left ELSE room) :
             /\ left' = left - n /\ room' = room - n
             /\ got' = got \o [k \in 1..n |-> cur]
        /\ op' = <<"work">>
        /\ UNCHANGED <<reqs, pushed, net, buf, pos, base, cur, ph, body, st>>
Done == /\ st = "open" /\ ph = "rsp" /\ (left = 0 \/ (Flaw = "hasty" /\ room = 0))
        /\ IF ~ reqs[cur].keep THEN st' = "closed" /\ UNCHANGED <<buf, pos, base, cur, ph, body>>
           ELSE LET rest == IF Flaw = "drop" THEN <<>> ELSE SubSeq(buf, pos + 1, Len(buf)) IN
                /\ buf' = rest /\ pos' = 0
                /\ base' = IF Flaw = "slide" /\ rest # <<>> THEN base + pos ELSE 0
                /\ cur' = cur + 1 /\ ph' = "head" /\ body' = <<>> /\ UNCHANGED st
        /\ UNCHANGED <<net, left>> /\ Quiet
Work == Fill \/ Full \/ Look \/ Body \/ Answer \/ Send \/ Done

Client == (\E q \in Req : Begin(q)) \/ (\E n \in 1..Cap + 2 : Push(n)) \/ Read
Next == Client \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Read)

(* ---- what has to hold *)
\* units belong to the request they are taken for
Clear == st # "confused"
Bodies_ == ph = "rsp" => body = [k \in 1..reqs[cur].b |-> <<cur, "b", k>>]
\* responses whole, in order
RECURSIVE All(_)
All(n) == IF n = 0 THEN <<>> ELSE All(n - 1) \o [k \in 1..reqs[n].r |-> n]
InOrder == LET a == All(Len(reqs)) IN Len(got) <= Len(a) /\ got = SubSeq(a, 1, Len(got))
\* closed only after the response to a request that did not ask for more
Kept == st = "closed" => cur <= Len(reqs) /\ ~ reqs[cur].keep /\ got = All(cur)
\* every request that is there completely is answered
Answered == \A i \in 1..MaxReqs : (Len(reqs) >= i /\ pushed >= Total(i)) ~> (Len(reqs) >= i /\ Len(got) >= Len(All(i)))
Small == Len(reqs) <= MaxReqs
View == <<reqs, pushed, net, buf, pos, base, cur, ph, body, left, room, got, st>>
=============================================================================
