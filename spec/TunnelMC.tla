------------------------------ MODULE TunnelMC ------------------------------
(* The relay as it is built.  Two legs (D: the client, U: the target), one   *)
(* buffer per direction, edge-triggered readiness, and per leg a routine for *)
(* "can be read" and one for "can be written" which are exchanged as a       *)
(* direction waits for one or the other.  Leg D speaks TLS: after its peer   *)
(* asked for new keys an answer has to be written before more is read.       *)
(* Units (not bytes) are numbered in the order they were sent.               *)
(* `op' is the last step; paths through the state graph are replayed into    *)
(* the real code.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cap,      \* units a direction's buffer holds
          MaxSend,  \* units each peer sends
          MaxRoom,  \* units a peer accepts in advance
          Rekeys,   \* how often D's peer asks for new keys
          EndAfter  \* units sent in all before a peer ends (to get long behaviours)

Legs == {"D", "U"}
Other(l) == IF l = "D" THEN "U" ELSE "D"

VARIABLES s, op
vars == <<s, op>>

(* s: q     units sent by the peer of a leg and not read yet                 *)
(*    eof   the peer has ended its stream        rst  ... abruptly           *)
(*    room  units the peer of a leg accepts      full a write was refused    *)
(*    buf   units read from a leg and not written to the other one yet       *)
(*    err   the end of a leg has been read                                   *)
(*    got   units delivered to the peer of a leg                             *)
(*    rcb, wcb  routines: "relay" (read it and pass it on / pass the rest    *)
(*          on), "again" (read again: it waited for a write), "none"         *)
(*    pend  readiness not acted on yet                                       *)
(*    ku    an answer to a request for new keys is due on D; rw: a read of D *)
(*          waits for it                                                     *)
Init ==
  /\ s = [q |-> [l \in Legs |-> <<>>], sent |-> [l \in Legs |-> 0],
          eof |-> [l \in Legs |-> FALSE], rst |-> [l \in Legs |-> FALSE],
          room |-> [l \in Legs |-> MaxRoom], full |-> [l \in Legs |-> FALSE],
          buf |-> [l \in Legs |-> <<>>], err |-> [l \in Legs |-> FALSE],
          got |-> [l \in Legs |-> <<>>],
          rcb |-> [l \in Legs |-> "relay"], wcb |-> [l \in Legs |-> "none"],
          pend |-> {}, ku |-> "no", rw |-> FALSE, rekeys |-> Rekeys, closed |-> FALSE]
  /\ op = <<"start">>

Ready(x, l) == x.q[l] # <<>> \/ x.eof[l] \/ x.rst[l]
\* readiness is reported when something new happens on a leg, and then all
\* that holds of it
Edge(x, l) == [x EXCEPT !.pend = @ \cup (IF Ready(x, l) THEN {<<l, "r">>} ELSE {})
                                  \cup (IF x.room[l] > 0 \/ x.rst[l] THEN {<<l, "w">>} ELSE {})]

\* ---- reading and writing a leg
\* an answer that is due goes out before the next write; once begun it has
\* to be finished before anything else; -> <<state, can go on>>
Answer(x, l, w) ==
  IF l # "D" \/ x.ku = "no" \/ (x.ku = "due" /\ ~ w) THEN <<x, TRUE>>
  ELSE IF x.room[l] = 0 THEN <<[x EXCEPT !.full[l] = TRUE, !.ku = "begun"], FALSE>>
  ELSE <<[x EXCEPT !.room[l] = @ - 1, !.ku = "no"], TRUE>>

RECURSIVE Fill(_, _)
Fill(x, l) ==    \* read until the buffer is full or nothing is left
  IF Len(x.buf[l]) >= Cap THEN x
  ELSE LET a == Answer(x, l, FALSE)
           y == a[1]
       IN IF ~ a[2] THEN [y EXCEPT !.rw = TRUE, !.wcb[l] = IF @ = "none" THEN "again" ELSE @]
          ELSE IF y.rst[l] THEN [y EXCEPT !.err[l] = TRUE]
          ELSE IF y.q[l] = <<>>
          THEN (IF y.eof[l] THEN [y EXCEPT !.err[l] = TRUE] ELSE y)
          ELSE IF Head(y.q[l]) = 0      \* a request for new keys
          THEN Fill([y EXCEPT !.q[l] = Tail(@), !.ku = "due"], l)
          ELSE Fill([y EXCEPT !.q[l] = Tail(@), !.buf[l] = Append(@, Head(y.q[l]))], l)

Close(x) == [x EXCEPT !.closed = TRUE, !.pend = {},
             \* nothing of a closed session matters any more
             !.rcb = [l \in Legs |-> "none"], !.wcb = [l \in Legs |-> "none"]]

RECURSIVE Read(_, _), Write(_, _)
Read(x, l) ==    \* from l to the other leg
  LET y == Fill(x, l) IN
  IF y.buf[l] # <<>> THEN Write([y EXCEPT !.rcb[l] = "none", !.wcb[Other(l)] = "relay"], l)
  ELSE IF y.err[l] THEN Close(y) ELSE y

Write(x, l) ==   \* what was read from l
  LET o == Other(l) IN
  IF x.buf[l] = <<>>
  THEN IF x.err[l] THEN Close(x)
       ELSE Read([x EXCEPT !.wcb[o] = "none", !.rcb[l] = "relay"], l)
  ELSE IF x.rst[o] THEN Close(x)
  ELSE LET a == Answer(x, o, TRUE) IN
       IF ~ a[2] THEN a[1]
       ELSE IF a[1].room[o] = 0 THEN [a[1] EXCEPT !.full[o] = TRUE]
       ELSE LET y == [a[1] EXCEPT !.room[o] = @ - 1, !.buf[l] = Tail(@), !.got[o] = Append(@, Head(x.buf[l]))]
                \* a read that waited for a write is tried again
                z == IF o = "D" /\ y.rw
                     THEN Edge([y EXCEPT !.rw = FALSE], o)
                     ELSE y
            IN Write(z, l)

RunR(x, l) == IF x.rcb[l] = "relay" THEN Read(x, l) ELSE x
RunW(x, l) == IF x.wcb[l] = "relay" THEN Write(x, Other(l))
              ELSE IF x.wcb[l] = "again" THEN RunR([x EXCEPT !.wcb[l] = "none"], l)
              ELSE x

\* ---- steps
Act(p) ==
  /\ p \in s.pend
  /\ LET x == [s EXCEPT !.pend = @ \ {p}]
     IN s' = IF p[2] = "r" THEN RunR(x, p[1]) ELSE RunW(x, p[1])
  /\ op' = <<"act">>

MayEnd == s.sent["D"] + s.sent["U"] >= EndAfter
Env(l) ==
  /\ ~ s.closed
  /\ \/ /\ s.sent[l] < MaxSend /\ ~ s.eof[l]
        /\ s' = Edge([s EXCEPT !.sent[l] = @ + 1, !.q[l] = Append(@, s.sent[l] + 1)], l)
        /\ op' = <<"send", l>>
     \/ /\ s.room[l] < MaxRoom /\ ~ s.rst[l]
        /\ LET x == [s EXCEPT !.room[l] = @ + 1, !.full[l] = FALSE] IN s' = IF s.full[l] THEN Edge(x, l) ELSE x
        /\ op' = <<"room", l>>
     \/ /\ ~ s.eof[l] /\ MayEnd
        /\ s' = Edge([s EXCEPT !.eof[l] = TRUE], l)
        /\ op' = <<"end", l>>
     \/ /\ ~ s.eof[l] /\ MayEnd
        /\ s' = Edge([s EXCEPT !.eof[l] = TRUE, !.rst[l] = TRUE, !.q[l] = <<>>], l)
        /\ op' = <<"reset", l>>
     \/ /\ l = "D" /\ s.rekeys > 0 /\ ~ s.eof[l]
        /\ s' = Edge([s EXCEPT !.rekeys = @ - 1, !.q[l] = Append(@, 0)], l)
        /\ op' = <<"rekey", l>>

Worker == \E p \in s.pend : Act(p)
Accept(l) == s.room[l] = 0 /\ Env(l) /\ op'[1] = "room"
Next == Worker \/ \E l \in Legs : Env(l)
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A l \in Legs : WF_vars(Accept(l))

View == s

\* ---- what has to hold
Upto(n) == [i \in 1..n |-> i]
\* delivered bytes are the bytes sent
Prefix == \A l \in Legs : s.got[l] = Upto(Len(s.got[l])) /\ Len(s.got[l]) <= s.sent[Other(l)]
\* a session ends only when an end has been seen and everything before it is delivered
Flush == s.closed => \E l \in Legs : s.rst[l] \/ (s.eof[l] /\ (Len(s.got[Other(l)]) = s.sent[l] \/ s.eof[Other(l)]))
\* nothing waits for readiness that has already been reported
Waits(l) == s.q[l] # <<>> \/ s.buf[l] # <<>>
NoStall == s.pend = {} /\ ~ s.closed =>
  \A l \in Legs : /\ Waits(l) => s.room[Other(l)] = 0 \/ (l = "D" /\ s.ku = "begun" /\ s.room[l] = 0)
                  /\ s.eof[l] => Waits(l) \/ (l = "D" /\ s.ku = "begun" /\ s.room[l] = 0)
\* what has been sent arrives as long as the receiver goes on accepting
Sent(l, n) == s.sent[l] >= n
Delivered(l, n) == Len(s.got[Other(l)]) >= n
Arrives == \A l \in Legs : \A n \in 1..MaxSend : Sent(l, n) ~> (Delivered(l, n) \/ s.closed)
EndsClose == \A l \in Legs : s.eof[l] ~> s.closed
=============================================================================
