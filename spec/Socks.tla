------------------------------- MODULE Socks -------------------------------
(* SOCKS version 5 messages (RFC 1928), as far as this service speaks it.   *)
(* A parser looks at the bytes received so far and answers with             *)
(*   [k |-> "more"]                nothing can be decided yet               *)
(*   [k |-> "bad"]                 must be refused                          *)
(*   [k |-> "mustbad", ...]        (see Request) may be refused already     *)
(*   [k |-> "ok", n |-> length consumed, ...]                               *)
EXTENDS Bytes

GreetingReply == <<5, 0>>
SuccessPrefix == <<5, 0, 0, 1>>
SuccessLen == 10

\* VER NMETHODS METHODS...
Greeting(b) ==
  IF Len(b) < 2 THEN [k |-> "more"]
  ELSE IF b[2] = 0 THEN [k |-> "bad"]
  ELSE IF Len(b) < 2 + b[2] THEN [k |-> "more"]
  ELSE [k |-> "ok", n |-> 2 + b[2]]

\* VER CMD RSV ATYP ADDR PORT.  A request that can already be seen to be
\* unacceptable but is still incomplete gives "doomed": it may be refused now.
AddrLen(b) ==
  CASE b[4] = 1 -> 4
    [] b[4] = 3 -> IF Len(b) >= 5 THEN 1 + b[5] ELSE -1
    [] b[4] = 4 -> 16
    [] OTHER -> -1

Request(b) ==
  IF Len(b) < 4
  THEN IF (Len(b) >= 1 /\ b[1] # 5) \/ (Len(b) >= 2 /\ b[2] # 1) THEN [k |-> "doomed"] ELSE [k |-> "more"]
  ELSE LET wrong == b[1] # 5 \/ b[2] # 1 \/ b[4] \notin {1, 3}
           empty == b[4] = 3 /\ Len(b) >= 5 /\ b[5] = 0
           al == AddrLen(b)
       IN IF b[4] \notin {1, 3, 4} THEN [k |-> "bad"]
          ELSE IF empty THEN [k |-> "bad"]
          ELSE IF al < 0 \/ Len(b) < 4 + al + 2
               THEN IF wrong THEN [k |-> "doomed"] ELSE [k |-> "more"]
          ELSE IF wrong THEN [k |-> "bad"]
          ELSE [k |-> "ok", n |-> 4 + al + 2,
                dom |-> b[4] = 3,
                addr |-> IF b[4] = 1 THEN SubSeq(b, 5, 8) ELSE SubSeq(b, 6, 5 + b[5]),
                port |-> U16(b, 4 + al + 1)]
=============================================================================
