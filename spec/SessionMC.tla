------------------------------ MODULE SessionMC -----------------------------
(* Sessions of one worker from connecting to closing, as it is built: the    *)
(* phases a session goes through, what each event does in each of them, and  *)
(* its time limits (in units of five seconds).  The bytes of an established  *)
(* tunnel are the subject of TunnelMC; here only whether some wait for an    *)
(* endpoint that is not accepting.                                           *)
(* `op' is the last step; behaviours are replayed into the real code.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Conns,    \* concurrent connections
          Kinds,    \* of clients: "tun", "web", "webs" (TLS), "app" (local role)
          Shared,   \* tunnel clients come to the shared port
          Patience, \* steps a session may go on before it can end (to get long behaviours)
          Trouble   \* "short": memory runs out; "junk": peers send what no protocol has

VARIABLES s, op
vars == <<s, op>>

(* kind  of client            ph    phase                                    *)
(* half  part of the message the phase waits for has been sent; how: of which*)
(* last  the response under way is the last one                              *)
(* blk, ublk  the client, the target accepts nothing for now                 *)
(* cw, uw  relayed bytes wait for the client, the target                     *)
(* age   time without progress        up  the outbound leg                   *)
(* authed, est, ok, asked: presented a key; the outbound leg was made; was   *)
(* told so; the resolver or a target was contacted                           *)
(* w     steps before it may end                                             *)
None == [kind |-> "", ph |-> "none", half |-> FALSE, how |-> "", last |-> FALSE, blk |-> FALSE, ublk |-> FALSE, cw |-> FALSE, uw |-> FALSE,
         age |-> 0, up |-> "no", authed |-> FALSE, est |-> FALSE, ok |-> FALSE, asked |-> FALSE, w |-> 0]

Init == s = [c \in Conns |-> None] /\ op = <<"start">>

Open(r) == r.ph \notin {"none", "closed"}
Limit(r) ==
  CASE r.ph \in {"new", "head", "rsp", "resolve", "uhs"} -> 1
    [] r.ph = "auth" /\ Shared -> 1
    [] OTHER -> 2

\* ending a session ends both of its legs
Closed(r) == [None EXCEPT !.ph = "closed", !.kind = r.kind, !.up = IF r.up = "no" THEN "no" ELSE "closed",
              !.authed = r.authed, !.est = r.est, !.ok = r.ok, !.asked = r.asked]

To(r, ph) == [r EXCEPT !.ph = ph, !.age = 0, !.half = FALSE, !.how = ""]
Dial(r) == [To(r, "dial") EXCEPT !.up = "dial", !.asked = TRUE]
Tell(r) == IF r.blk THEN To(r, "sreply") ELSE [To(r, "relay") EXCEPT !.ok = TRUE]

\* the client's next message is complete; how: which one it is
Choices(r) ==
  CASE r.half -> {r.how}
    [] r.ph = "req" -> {"ip", "name"}
    [] r.ph = "head" \/ (r.ph = "new" /\ r.kind = "web") -> {"keep", "last"}
    [] r.ph \in {"new", "auth", "greet"} -> {"go"}
    [] r.ph = "relay" /\ ~ r.uw -> {"go"}
    [] OTHER -> {}

Served(r, how) ==
  IF r.blk THEN [To(r, "rsp") EXCEPT !.last = how = "last"]
  ELSE IF how = "last" THEN Closed(r) ELSE To(r, "head")

Message(r, how) ==
  CASE r.ph = "new" /\ r.kind = "tun" -> To(r, "auth")
    [] r.ph = "new" /\ r.kind = "webs" -> To(r, "head")
    [] r.ph = "new" /\ r.kind = "web" -> Served(r, how)
    [] r.ph = "new" /\ r.kind = "app" -> Dial(r)
    [] r.ph = "auth" -> [To(r, "greet") EXCEPT !.authed = TRUE]
    [] r.ph = "greet" -> To(r, IF r.blk THEN "greply" ELSE "req")
    [] r.ph = "req" -> (IF how = "ip" THEN Dial(r) ELSE [To(r, "resolve") EXCEPT !.asked = TRUE])
    [] r.ph = "head" -> Served(r, how)
    [] OTHER -> [r EXCEPT !.age = 0, !.uw = r.ublk]

Unblocked(r) ==
  LET x == [r EXCEPT !.blk = FALSE] IN
  CASE r.ph = "greply" -> To(x, "req")
    [] r.ph = "sreply" -> Tell(x)
    [] r.ph = "rsp" -> (IF r.last THEN Closed(x) ELSE To(x, "head"))
    [] r.ph = "drainc" -> Closed(x)
    [] r.cw -> [x EXCEPT !.cw = FALSE, !.age = 0]
    [] OTHER -> x

Change(c, o, x) ==
  /\ s[c].w > 0 => Open(x)
  /\ s' = [s EXCEPT ![c] = IF x.w > 0 /\ s[c].w = x.w THEN [x EXCEPT !.w = @ - 1] ELSE x]
  /\ op' = o

Connect(c) == \E k \in Kinds, w \in Patience : s[c].ph \in {"none", "closed"}
              /\ Change(c, <<"connect", c, k>>, [None EXCEPT !.kind = k, !.ph = "new", !.w = w])
Next_(c) == \E how \in Choices(s[c]) : Change(c, <<"next", c, how>>, Message(s[c], how))
Half(c) == /\ ~ s[c].half /\ (s[c].ph \in {"auth", "greet", "req", "head"} \/ (s[c].ph = "new" /\ s[c].kind = "web"))
           /\ \E how \in Choices(s[c]) :
              Change(c, <<"half", c, how>>, [To(s[c], IF s[c].ph = "new" THEN "head" ELSE s[c].ph) EXCEPT !.half = TRUE, !.how = how])
Bad(c) == ~ s[c].half /\ s[c].ph \in {"auth", "greet", "req"} /\ Change(c, <<"bad", c>>, Closed(s[c]))
Block(c) == s[c].ph \in {"greet", "dial", "relay", "head"} /\ ~ s[c].blk /\ Change(c, <<"block", c>>, [s[c] EXCEPT !.blk = TRUE])
Unblock(c) == s[c].blk /\ Open(s[c]) /\ Change(c, <<"unblock", c>>, Unblocked(s[c]))
Fin(c) == Open(s[c]) /\ s[c].ph \notin {"drainc", "drainu"}
          /\ Change(c, <<"fin", c>>, IF s[c].ph = "relay" /\ s[c].uw THEN [s[c] EXCEPT !.ph = "drainu", !.age = 0] ELSE Closed(s[c]))
Rst(c) == Open(s[c]) /\ Change(c, <<"rst", c>>, Closed(s[c]))

UpOk(c) == s[c].ph = "dial"
           /\ Change(c, <<"upok", c>>, LET x == [s[c] EXCEPT !.up = "up", !.est = s[c].kind = "tun"]
                                       IN IF x.kind = "tun" THEN Tell(x) ELSE To(x, "uhs"))
UpFail(c) == s[c].ph = "dial" /\ Change(c, <<"upfail", c>>, Closed(s[c]))
UpShake(c) == s[c].ph = "uhs" /\ \E how \in {"good", "bad"} :
              Change(c, <<"upshake", c, how>>, IF how = "good" THEN [To(s[c], "relay") EXCEPT !.est = TRUE] ELSE Closed(s[c]))
UpSend(c) == s[c].ph = "relay" /\ ~ s[c].cw /\ Change(c, <<"upsend", c>>, [s[c] EXCEPT !.age = 0, !.cw = s[c].blk])
UpBlock(c) == s[c].ph = "relay" /\ ~ s[c].ublk /\ Change(c, <<"upblock", c>>, [s[c] EXCEPT !.ublk = TRUE])
UpUnblock(c) == s[c].ph \in {"relay", "drainu"} /\ s[c].ublk
                /\ Change(c, <<"upunblock", c>>, IF s[c].ph = "drainu" THEN Closed(s[c])
                                                 ELSE IF s[c].uw THEN [s[c] EXCEPT !.ublk = FALSE, !.uw = FALSE, !.age = 0]
                                                 ELSE [s[c] EXCEPT !.ublk = FALSE])
UpFin(c) == s[c].ph \in {"relay", "uhs"}
            /\ Change(c, <<"upfin", c>>, IF s[c].cw THEN [s[c] EXCEPT !.ph = "drainc", !.age = 0] ELSE Closed(s[c]))
UpRst(c) == s[c].ph \in {"relay", "uhs", "drainu"} /\ Change(c, <<"uprst", c>>, Closed(s[c]))
Answer(c) == s[c].ph = "resolve" /\ \E how \in {"address", "nothing"} :
             Change(c, <<"answer", c, how>>, IF how = "address" THEN Dial(s[c]) ELSE Closed(s[c]))

\* the same steps, but memory runs out in the middle of them; what a peer sends makes no sense
Short(c) ==
  /\ "short" \in Trouble
  /\ \/ \E k \in Kinds : s[c].ph \in {"none", "closed"} /\ Change(c, <<"short", c, "connect", k>>, Closed([None EXCEPT !.kind = k]))
     \/ \E how \in Choices(s[c]) : Change(c, <<"short", c, "next", how>>, Closed(s[c]))
     \/ \E how \in Choices(s[c]) : s[c].ph = "head" /\ ~ s[c].half /\ Change(c, <<"short", c, "half", how>>, Closed(s[c]))
     \/ s[c].ph = "dial" /\ Change(c, <<"short", c, "upok">>, Closed(s[c]))
     \/ s[c].ph = "uhs" /\ Change(c, <<"short", c, "upshake", "good">>, Closed(s[c]))
     \/ s[c].ph = "relay" /\ ~ s[c].cw /\ Change(c, <<"short", c, "upsend">>, Closed(s[c]))
     \/ s[c].ph = "resolve" /\ Change(c, <<"short", c, "answer", "address">>, Closed(s[c]))
     \/ s[c].blk /\ Open(s[c]) /\ Change(c, <<"short", c, "unblock">>, Closed(s[c]))
Junk(c) == "junk" \in Trouble /\ Open(s[c]) /\ \E who \in {"client"} \cup (IF s[c].ph \in {"resolve", "uhs"} \/ s[c].up = "up" THEN {"far"} ELSE {}) :
           Change(c, <<"junk", c, who>>, Closed(s[c]))

\* five seconds pass and nothing happens
Tick ==
  /\ \E c \in Conns : Open(s[c])
  /\ \A c \in Conns : Open(s[c]) /\ s[c].age + 1 >= Limit(s[c]) => s[c].w = 0
  /\ s' = [c \in Conns |-> IF ~ Open(s[c]) THEN s[c]
                           ELSE IF s[c].age + 1 >= Limit(s[c]) THEN Closed(s[c]) ELSE [s[c] EXCEPT !.age = @ + 1]]
  /\ op' = <<"tick">>

Client(c) == Connect(c) \/ Next_(c) \/ Half(c) \/ Bad(c) \/ Block(c) \/ Unblock(c) \/ Fin(c) \/ Rst(c)
Far(c) == UpOk(c) \/ UpFail(c) \/ UpShake(c) \/ UpSend(c) \/ UpBlock(c) \/ UpUnblock(c) \/ UpFin(c) \/ UpRst(c) \/ Answer(c)
Next == Tick \/ \E c \in Conns : Client(c) \/ Far(c) \/ Short(c) \/ Junk(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)
View == s

\* ---- what has to hold
\* success is told only of a leg that was made; nobody is contacted without a key
Told == \A c \in Conns : s[c].ok => s[c].est
Keyed == \A c \in Conns : s[c].asked /\ s[c].kind = "tun" => s[c].authed
Clear == \A c \in Conns : s[c].kind \in {"web", "webs"} => ~ s[c].asked
\* no leg outlives its session
Paired == \A c \in Conns : (s[c].up \in {"dial", "up"}) <=> s[c].ph \in {"dial", "uhs", "sreply", "relay", "drainc", "drainu"}
\* nothing waits for an endpoint that accepts bytes
Waits == \A c \in Conns : (s[c].cw => s[c].blk) /\ (s[c].uw => s[c].ublk) /\ (s[c].ph \in {"greply", "sreply", "rsp"} => s[c].blk)
InTime == \A c \in Conns : Open(s[c]) => s[c].age < Limit(s[c])
\* who does not get on is dropped, and nobody else
Dropped == \A c \in Conns : []<>(~ Open(s[c]) \/ s[c].age = 0)
Kept == [][op' = <<"tick">> => \A c \in Conns : Open(s[c]) /\ ~ Open(s'[c]) => s[c].age + 1 = Limit(s[c])]_vars
\* what happens to one session does nothing to another
Apart == [][\A c \in Conns : s'[c] # s[c] => op' = <<"tick">> \/ op'[2] = c]_vars
=============================================================================
