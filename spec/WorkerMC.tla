------------------------------ MODULE WorkerMC ------------------------------
(* The session model against the specification: every step of SessionMC is  *)
(* turned into the events an observer would see, and these are run through  *)
(* the specification Worker.  Without a flaw no behaviour contradicts any   *)
(* property; with one, some behaviour contradicts the property it is about. *)
(* Each connection lives once.                                              *)
EXTENDS SessionMC, TLC

CONSTANTS Mode,   \* "s", "m", "c"
          Flaw,   \* how the model deviates ("none": not at all)
          Want,   \* the property that is contradicted by that
          MaxNow, MaxBytes

VARIABLES S, now, tags
mcvars == <<s, op, S, now, tags>>

W == INSTANCE Worker

Key == <<107, 49>>
Text == <<110, 46, 101>>       \* n.e
Target == <<1, 2, 3, 4>>
Answered == <<200, 0, 0, 7>>
TargetPort == 8080
File == [kind |-> "file", size |-> 7, src |-> "F"]
Header ==
  [cfg |-> [mode |-> Mode,
            local |-> 1080, tunnel |-> 3333, http |-> <<80>>, https |-> <<443>>,
            keys |-> {Key}, authkey |-> Key, servip |-> <<9, 9, 9, 9>>, servport |-> 3333, resolver |-> <<8, 8, 8, 8>>,
            day |-> 19675, sec |-> 80000, ms |-> 0],
   fs |-> [p \in {"f"} |-> File], reqs |-> <<>>, victims |-> {}, lift |-> {},
   subjects |-> IF "short" \in Trouble THEN Conns ELSE {}, wild |-> IF "junk" \in Trouble THEN Conns ELSE {}]

RECURSIVE Run(_, _)
Run(x, es) == IF es = <<>> THEN x ELSE Run([W!Step(x, Head(es)) EXCEPT !.t = @ \cup x.t], Tail(es))

U(c) == "U" \o c
D(c) == "D" \o c
Secured(r) == r.kind \in {"tun", "webs"}

\* ---- the bytes of messages
RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN <<>> ELSE <<b>> \o Rep(b, n - 1)
HeaderBytes(k) == W!Magic \o W!Padded(k, 32)
RequestLen == 40
Bytes_(r, how) ==
  CASE r.ph = "auth" -> HeaderBytes(Key)
    [] r.ph = "greet" -> <<5, 1, 0>>
    [] r.ph = "req" -> (IF how = "ip" THEN <<5, 1, 0, 1>> \o Target \o <<31, 144>> ELSE <<5, 1, 0, 3, Len(Text)>> \o Text \o <<31, 144>>)
    [] OTHER -> Rep(71, RequestLen)
BadBytes(r) ==
  CASE r.ph = "auth" -> HeaderBytes(<<110, 111>>)
    [] r.ph = "greet" -> <<5, 0>>
    [] OTHER -> <<5, 2, 0, 1>> \o Target \o <<31, 144>>
Query == <<190, 239, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0>> \o W!QuestionOf(Text)
Reply(n) == <<190, 239, 129, 128, 0, 1, 0, n, 0, 0, 0, 0>> \o W!QuestionOf(Text)
            \o (IF n = 1 THEN <<192, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4>> \o Answered ELSE <<>>)

\* ---- events
E(k, c) == [e |-> k, c |-> c, t |-> now']
In(c, b, p) == [e |-> "in", c |-> c, n |-> Len(b), p |-> p, b |-> IF p < 0 THEN b ELSE <<>>, t |-> now']
Lit(c, b) == [e |-> "out", c |-> c, k |-> "lit", b |-> b, t |-> now']
RunOf(c, x, o, n) == [e |-> "out", c |-> c, k |-> "run", s |-> x, o |-> o, n |-> n, t |-> now']
DialTo(c, ip, port) == [e |-> "dial", c |-> U(c), ip |-> ip, port |-> port, res |-> "inprog", own |-> c, tls |-> Mode = "c", t |-> now']
Success == <<5, 0, 0, 1, 0, 0, 0, 0, 0, 0>>

\* what waits for a leg is delivered
ToClient(c) == LET o == S.C[c].got IN
  IF Flaw = "again" THEN <<RunOf(c, U(c), o, 1), RunOf(c, U(c), o, 1)>>
  ELSE IF Flaw = "swap" THEN <<RunOf(c, c, o, 1)>>
  ELSE <<RunOf(c, U(c), o, 1)>>
ToTarget(c, early) ==
  LET o == IF early THEN 0 ELSE S.U[U(c)].got
      n == IF early THEN S.C[c].sent ELSE 1
  IN IF n = 0 THEN <<>> ELSE IF Flaw = "skip" THEN <<RunOf(U(c), c, o + 1, n)>> ELSE <<RunOf(U(c), c, o, n)>>

\* the legs of a session that has ended
Legs(c, r) ==
  (IF r.up \in {"dial", "up"} /\ Flaw # "leg" THEN <<E("close", U(c))>> ELSE <<>>)
  \o (IF r.ph = "resolve" THEN <<E("close", D(c))>> ELSE <<>>)
Gone(c, r) == <<E("close", c)>> \o Legs(c, r)

Dials(c, ip) ==
  IF Flaw = "port" THEN <<DialTo(c, ip, TargetPort + 1)>>
  ELSE IF Flaw = "addr" THEN <<DialTo(c, <<ip[1], ip[2], ip[3], 255>>, TargetPort)>>
  ELSE IF Flaw = "tell" THEN <<DialTo(c, ip, TargetPort), Lit(c, Success)>>
  ELSE IF Flaw = "twice" THEN <<DialTo(c, ip, TargetPort), [DialTo(c, ip, TargetPort) EXCEPT !.c = "V" \o c]>>
  ELSE <<DialTo(c, ip, TargetPort)>>

Response(c, kept) ==
  IF Flaw = "mute" THEN <<>>
  ELSE <<[e |-> "rsp", c |-> c, wf |-> TRUE, status |-> 200, clen |-> IF Flaw = "short" THEN 8 ELSE 7, sig |-> "x", t |-> now',
           date |-> W!DateText(19675, 80000 + (IF Flaw = "stale" THEN -60 ELSE now' \div 1000)),
           keep |-> IF (Flaw = "promise") # kept THEN "keep-alive" ELSE "close",
           type |-> IF Flaw = "kind" THEN "text/html" ELSE "text/plain"],
         [e |-> "body", c |-> c, s |-> "F", o |-> 0, n |-> 7, t |-> now']>>

PortFor(kind) == CASE kind = "tun" -> (IF Mode = "m" THEN 443 ELSE 3333) [] kind = "web" -> 80 [] kind = "webs" -> 443 [] OTHER -> 1080

\* what a step shows; r and x: the session before and after it
Shown(c, o, r, x) ==
  LET part == IF r.half THEN 1 ELSE 0
      k == o[1]
  IN CASE k = "connect" ->
            <<[e |-> "conn", c |-> c, port |-> PortFor(o[3]), tls |-> Secured(x), refused |-> FALSE, t |-> now'], E("accept", c)>>
       [] k = "half" -> <<In(c, W!Take(Bytes_(x, o[3]), 1), -1)>>
       [] k = "next" ->
            (CASE r.ph = "new" /\ Secured(r) -> <<E("wire", c), E("hsdone", c)>>
               [] r.ph = "new" /\ r.kind = "app" -> <<In(c, <<0>>, 0), [DialTo(c, <<9, 9, 9, 9>>, 3333) EXCEPT !.own = c]>>
               [] r.ph = "relay" -> <<In(c, <<0>>, S.C[c].sent)>> \o (IF r.ublk \/ Flaw = "stall" THEN <<>> ELSE ToTarget(c, FALSE))
               [] OTHER ->
                    LET got == In(c, W!Drop(Bytes_(r, o[3]), part), -1) IN
                    <<got>> \o
                    (CASE r.ph = "auth" -> (IF Flaw = "peek" THEN <<[e |-> "dnsq", c |-> D(c), b |-> Query, ip |-> <<8, 8, 8, 8>>, port |-> 53, t |-> now']>> ELSE <<>>)
                       [] r.ph = "greet" -> (IF r.blk THEN <<>> ELSE <<Lit(c, IF Flaw = "reply" THEN <<5, 1>> ELSE <<5, 0>>)>>)
                       [] r.ph = "req" ->
                            (IF x.ph = "dial" THEN Dials(c, Target)
                             ELSE <<[e |-> "dnsq", c |-> D(c), b |-> IF Flaw = "ask" THEN W!Take(Query, Len(Query) - 1) \o <<28>> ELSE Query, ip |-> <<8, 8, 8, 8>>, port |-> 53, t |-> now']>>)
                       [] OTHER -> (IF r.blk THEN <<>> ELSE Response(c, x.ph # "closed")) \o (IF x.ph = "closed" THEN Gone(c, r) ELSE <<>>)))
       [] k = "bad" -> <<In(c, BadBytes(r), -1)>> \o (IF Flaw = "door" THEN <<>> ELSE Gone(c, r))
       [] k = "short" ->
            (IF o[3] = "connect"
             THEN <<[e |-> "conn", c |-> c, port |-> PortFor(o[4]), tls |-> o[4] \in {"tun", "webs"}, refused |-> FALSE, t |-> now'], E("accept", c)>>
             ELSE <<>>) \o <<[e |-> "fault", t |-> now']>> \o (IF Flaw = "crash" THEN <<[e |-> "crash", t |-> now']>> ELSE Gone(c, r))
       [] k = "junk" -> <<E("junk", IF o[3] = "client" THEN c ELSE IF r.ph = "resolve" THEN D(c) ELSE U(c))>>
                        \o (IF Flaw = "crash" THEN <<[e |-> "crash", t |-> now']>> ELSE Gone(c, r))
       [] k = "block" -> <<>>
       [] k = "unblock" ->
            <<E("room", c)>> \o
            (CASE r.ph = "greply" -> <<Lit(c, <<5, 0>>)>>
               [] r.ph = "sreply" -> <<Lit(c, Success)>>
               [] r.ph = "rsp" -> Response(c, x.ph # "closed") \o (IF x.ph = "closed" THEN Gone(c, r) ELSE <<>>)
               [] r.cw -> ToClient(c) \o (IF x.ph = "closed" THEN Gone(c, r) ELSE <<>>)
               [] OTHER -> <<>>)
       [] k = "fin" -> <<E(IF Secured(r) /\ r.ph # "new" THEN "notify" ELSE "fin", c)>>
                       \o (IF x.ph = "closed" \/ Flaw = "cut" THEN Gone(c, r) ELSE <<>>)
       [] k = "rst" -> <<E("rst", c)>> \o Gone(c, r)
       [] k = "upok" -> <<[e |-> "dialres", c |-> U(c), ok |-> TRUE, t |-> now']>>
                        \o (IF x.ph = "relay" /\ Flaw # "tell" THEN <<Lit(c, Success)>> ELSE <<>>)
       [] k = "upfail" -> <<[e |-> "dialres", c |-> U(c), ok |-> FALSE, t |-> now']>>
                          \o (IF Flaw = "cheer" /\ r.kind = "tun" THEN <<Lit(c, Success)>> ELSE <<>>) \o Gone(c, r)
       [] k = "upshake" -> (IF o[3] = "good"
                            THEN <<E("hsdone", U(c)), Lit(U(c), W!HeaderFor(IF Flaw = "header" THEN <<107>> ELSE Key))>> \o ToTarget(c, TRUE)
                            ELSE <<E("junk", U(c))>> \o Gone(c, r))
       [] k = "upsend" -> <<In(U(c), <<0>>, S.U[U(c)].sent)>> \o (IF r.blk THEN <<>> ELSE ToClient(c))
       [] k = "upblock" -> <<>>
       [] k = "upunblock" -> <<E("room", U(c))>> \o (IF r.uw THEN ToTarget(c, FALSE) ELSE <<>>) \o (IF x.ph = "closed" THEN Gone(c, r) ELSE <<>>)
       [] k = "upfin" -> <<E(IF Mode = "c" /\ r.ph # "uhs" THEN "notify" ELSE "fin", U(c))>>
                         \o (IF x.ph = "closed" \/ Flaw = "cut" THEN Gone(c, r) ELSE <<>>)
       [] k = "uprst" -> <<E("rst", U(c))>> \o Gone(c, r)
       [] k = "answer" -> <<[e |-> "dnsr", c |-> D(c), b |-> Reply(IF o[3] = "address" THEN 1 ELSE 0), ip |-> <<8, 8, 8, 8>>, port |-> 53, t |-> now']>>
                          \o <<E("close", D(c))>>
                          \o (IF x.ph = "dial" THEN Dials(c, IF Flaw = "guess" THEN Target ELSE Answered) ELSE IF Flaw = "vain" THEN Dials(c, Target) ELSE <<E("close", c)>>)

RECURSIVE Dropped_(_)
Dropped_(cs) ==
  IF cs = {} THEN <<>>
  ELSE LET c == CHOOSE x \in cs : TRUE IN (IF Flaw = "slow" THEN <<>> ELSE Gone(c, s[c])) \o Dropped_(cs \ {c})

\* at rest
LegsOpen(x) == IF x.ph = "resolve" \/ x.up \in {"dial", "up"} THEN 2 ELSE IF Open(x) THEN 1 ELSE 0
RECURSIVE Sum(_)
Sum(cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE x \in cs : TRUE IN LegsOpen(s'[c]) + Sum(cs \ {c})
Rest ==
  [e |-> "q", mem |-> 50, sys |-> 3, ssl |-> 0, files |-> 2, socks |-> Sum(Conns), t |-> now',
   blk |-> {c \in Conns : s'[c].blk} \cup {U(c) : c \in {x \in Conns : s'[x].ublk}},
   und |-> {c \in Conns : s'[c].ph = "new"} \cup {U(c) : c \in {x \in Conns : s'[x].ph = "uhs"}}]

\* requests of web clients are known to the observer
Noted(x, c, o) ==
  IF (o[1] = "next" /\ s[c].kind \in {"web", "webs"} /\ o[3] \in {"keep", "last"} /\ ~ s[c].half) \/ (o[1] = "half" /\ s[c].kind \in {"web", "webs"})
  THEN LET rs == W!ReqsOf(x, c)
           n == Len(rs)
           q == [end |-> (n + 1) * RequestLen, head |-> (n + 1) * RequestLen, ok |-> TRUE, meth |-> "GET", api |-> FALSE, esc |-> FALSE,
                 path |-> "f", keep |-> o[3] = "keep", blen |-> 0, body |-> "", id |-> "r"]
       IN [x EXCEPT !.reqs = (c :> Append(rs, q)) @@ @]
  ELSE x

MCInit ==
  /\ Init /\ now = 0 /\ tags = {}
  /\ S = [W!InitState(Header) EXCEPT !.base.mem = -1]

Advance ==
  LET o == op'
      es == IF o = <<"tick">> THEN <<[e |-> "tick", t |-> now']>> \o Dropped_({c \in Conns : Open(s[c]) /\ ~ Open(s'[c])})
                                 \o (IF Flaw = "hasty" THEN LET h == {c \in Conns : Open(s'[c])} IN IF h = {} THEN <<>> ELSE Gone(CHOOSE x \in h : TRUE, s[CHOOSE x \in h : TRUE]) ELSE <<>>)
            ELSE Shown(o[2], o, s[o[2]], s'[o[2]])
      x == Run(IF o = <<"tick">> THEN S ELSE Noted(S, o[2], o), es \o <<Rest>>)
  IN S' = [x EXCEPT !.t = {}] /\ tags' = tags \cup x.t

MCNext ==
  /\ tags = {}          \* what comes after a contradiction does not matter
  /\ Next
  /\ op' # <<"start">>
  /\ now' = IF op' = <<"tick">> THEN now + (IF Flaw = "slow" THEN 6000 ELSE 5000) ELSE now
  /\ Advance

\* each connection lives once, and not too long
Small ==
  /\ now <= MaxNow
  /\ op[1] = "connect" => s[op[2]].ph = "new"
  /\ \A c \in Conns : c \in DOMAIN S.C => S.C[c].sent <= MaxBytes /\ S.C[c].rxn <= 200
  /\ \A c \in Conns : U(c) \in DOMAIN S.U => S.U[U(c)].sent <= MaxBytes
Once == \A c \in Conns : (s[c].ph = "closed" /\ op'[1] = "connect") => op'[2] # c
MCSpec == MCInit /\ [][MCNext /\ Once]_mcvars

Clean == tags = {}
Unseen == Want \notin tags
=============================================================================
