------------------------------- MODULE Worker -------------------------------
(* What a worker process of the service does, seen from outside: from the   *)
(* connections it accepts and makes, the names it looks up, the bytes that  *)
(* go in and out, the passage of time and the resources it holds.           *)
(*                                                                          *)
(* The state S is one record.  Step(S, e) is the state after event e; its   *)
(* field t holds the tags of the properties that e (in S) contradicts.      *)
(* Events made by the environment never contradict anything.  A quiescence  *)
(* event ("q": the worker has handled everything it was told about and      *)
(* waits) contradicts a property if something that had to be done by then   *)
(* has not been done.                                                       *)
(*                                                                          *)
(* WorkerMC explores all behaviours in which no event contradicts anything; *)
(* WorkerTrace runs recorded executions of the program through Step.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, Auth, Socks, Dns, Http, Path, Config, Calendar

(* ---------------------------------------------------------------- limits *)
FirstByteLimit == 5000
WebLimit       == 5000
SetupLimit     == 10000
IdleLimit      == 10000
ResolveLimit   == 5000
HandshakeMin   == 5000       \* a handshake step may be given up after this
HandshakeMax   == 10000      \* and has to be after this
Linger         == 5200       \* a TLS leg may wait this long for the peer's close
Slack          == 200
SweepPeriod    == 30000

(* ---------------------------------------------------------------- services *)
Web(r) == r.svc \in {"http", "https"} \/ (r.svc = "shared" /\ r.ph = "web")

(* ---------------------------------------------------------------- initial state *)
NewConn(svc, tls, now) ==
  [svc |-> svc, tls |-> tls, fit |-> (tls = Encrypted(svc)), st |-> "queued",
   ph |-> CASE svc = "tun" -> "auth" [] svc = "shared" -> "route" [] svc = "local" -> "new" [] OTHER -> "web",
   rx |-> <<>>, rxn |-> 0, ob |-> <<>>, end |-> "no", endAt |-> 0, junk |-> FALSE, first |-> FALSE,
   prog |-> now, act |-> now, at |-> now, must |-> -1, why |-> {}, may |-> FALSE,
   cn |-> FALSE, hs |-> FALSE, up |-> "", dq |-> "", addrs |-> {}, kind |-> "", port |-> 0, name |-> <<>>,
   sent |-> 0, got |-> 0, taint |-> FALSE, loose |-> FALSE, aim |-> FALSE, hurt |-> FALSE,
   n |-> 0, cur |-> 0, clen |-> 0, inrsp |-> FALSE, seen |-> <<>>, ku |-> FALSE, lost |-> FALSE]

NewUp(own, st, now) ==
  [own |-> own, st |-> st, tls |-> FALSE, end |-> "no", endAt |-> 0, junk |-> FALSE, hs |-> FALSE, ob |-> <<>>,
   sent |-> 0, got |-> 0, at |-> now, act |-> now, prog |-> now, must |-> -1, why |-> {}, cn |-> FALSE, hdr |-> FALSE, up |-> st = "up", odd |-> FALSE, ku |-> FALSE]

\* h: the header of a scenario: configuration, files, requests, ...
InitState(h) ==
  [cfg |-> h.cfg, fs |-> h.fs, reqs |-> h.reqs, victims |-> h.victims, lift |-> h.lift, subjects |-> h.subjects, wild |-> h.wild,
   C |-> <<>>, U |-> <<>>, D |-> <<>>, cache |-> <<>>, sigs |-> <<>>, now |-> 0,
   base |-> [mem |-> -2], started |-> FALSE, stop |-> FALSE, over |-> FALSE, fault |-> FALSE,
   listens |-> {}, blk |-> {}, t |-> {}]

(* ---------------------------------------------------------------- flagging *)
\* on a shared port, what goes wrong before a client has been served says that
\* it did not get its service
Lifted(S, c) == (IF c \in S.victims THEN S.lift ELSE {}) \cup (IF S.C[c].hurt THEN {"P23"} ELSE {}) \cup
                (IF S.C[c].svc = "shared" /\ S.C[c].ph \in {"route", "auth", "greet", "greply", "web"} THEN {"P20"} ELSE {})
Flag(S, c, tags) ==
  IF tags = {} \/ S.C[c].taint THEN S
  ELSE [S EXCEPT !.t = @ \cup tags \cup Lifted(S, c), !.C[c].taint = TRUE]
FlagAll(S, tags) == [S EXCEPT !.t = @ \cup tags \cup S.lift]

Must(S, c, tags) ==
  IF S.C[c].must >= 0 THEN S
  ELSE [S EXCEPT !.C[c].must = S.now, !.C[c].why = tags]
MustUp(S, u, tags) ==
  IF S.U[u].must >= 0 THEN S
  ELSE [S EXCEPT !.U[u].must = S.now, !.U[u].why = tags]

IsOpen(S, c) == S.C[c].st = "open"
UpOpen(S, c) == S.C[c].up # "" /\ S.U[S.C[c].up].st # "closed"
Relaying(S, c) == S.C[c].ph = "relay"

\* tags for a connection that gets something wrong, or is dropped, in its present phase
PhaseTags(S, c) ==
  LET r == S.C[c] IN
  IF r.svc = "local" THEN {"P19"}
  ELSE IF Web(r) THEN {"P10"}
  ELSE CASE r.ph = "route" -> {"P20"}
         [] r.ph = "auth" -> {"P04"}
         [] r.ph = "greet" -> {"P04", "P05"}
         [] r.ph \in {"greply", "req"} -> {"P05"}
         [] r.ph = "resolve" -> {"P07"}
         [] r.ph = "dial" -> {"P06"} \cup (CASE r.kind = "cache" -> {"P08"} [] r.kind = "dns" -> {"P07"} [] OTHER -> {"P05"})
         [] r.ph = "sreply" -> {"P06"}
         [] OTHER -> {}

(* ---------------------------------------------------------------- tunnel set-up *)
CacheOf(S, name) == IF name \in DOMAIN S.cache THEN S.cache[name] ELSE {}

RECURSIVE TunAdv(_, _)
TunAdv(S, c) ==
  LET r == S.C[c] IN
  CASE r.ph = "auth" ->
         IF Len(r.rx) < HeaderLen
         THEN IF IsPrefixOf(r.rx, Magic) \/ IsPrefixOf(Magic, r.rx) THEN S ELSE [S EXCEPT !.C[c].may = TRUE]
         ELSE IF AuthOK(r.rx, S.cfg.keys)
              THEN TunAdv([S EXCEPT !.C[c].ph = "greet", !.C[c].rx = Drop(@, HeaderLen)], c)
              ELSE Must([S EXCEPT !.C[c].ph = "bad"], c, {"P04"})
    [] r.ph = "greet" ->
         LET g == Greeting(r.rx) IN
         (CASE g.k = "more" -> S
           [] g.k = "bad" -> Must([S EXCEPT !.C[c].ph = "bad"], c, {"P05"})
           [] g.k = "ok" -> [S EXCEPT !.C[c].ph = "greply", !.C[c].rx = Drop(@, g.n), !.C[c].loose = @ \/ Len(r.rx) > g.n])
    [] r.ph = "req" ->
         LET q == Request(r.rx) IN
         (CASE q.k = "more" -> S
           [] q.k = "doomed" -> [S EXCEPT !.C[c].may = TRUE]
           [] q.k = "bad" -> Must([S EXCEPT !.C[c].ph = "bad"], c, {"P05"})
           [] q.k = "ok" ->
                LET S1 == [S EXCEPT !.C[c].rx = Drop(@, q.n), !.C[c].port = q.port, !.C[c].at = S.now,
                                    !.C[c].aim = ~ q.dom /\ ~ r.loose,     \* whatever follows, this is the target
                                    !.C[c].loose = @ \/ Len(r.rx) > q.n]
                IN IF ~ q.dom THEN [S1 EXCEPT !.C[c].ph = "dial", !.C[c].addrs = {q.addr}, !.C[c].kind = "ip"]
                   ELSE LET ent == CacheOf(S, q.addr)
                            may == {x \in ent : S.now <= x.exp}
                            sure == ent # {} /\ \A x \in ent : S.now < x.exp /\ x.sure
                        IN IF ~ ValidName(q.addr)
                           THEN [S1 EXCEPT !.C[c].ph = "resolve", !.C[c].name = q.addr, !.C[c].loose = TRUE]
                           ELSE [S1 EXCEPT !.C[c].ph = IF sure THEN "dial" ELSE "resolve",
                                           !.C[c].kind = "cache",
                                           !.C[c].addrs = {x.addr : x \in may},
                                           !.C[c].name = q.addr])
    [] OTHER -> S

TunIn(S, c, e) ==
  LET r == S.C[c] IN
  IF r.ph = "bad" THEN S
  ELSE IF r.ph \in {"auth", "greet", "req"}
  THEN IF Len(e.b) # e.n THEN [S EXCEPT !.C[c].loose = TRUE]
       ELSE TunAdv([S EXCEPT !.C[c].rx = @ \o e.b], c)
  ELSE \* bytes to be relayed
       LET S1 == IF e.p = r.sent THEN [S EXCEPT !.C[c].sent = @ + e.n] ELSE [S EXCEPT !.C[c].loose = TRUE]
       IN IF r.ph = "relay" THEN S1 ELSE [S1 EXCEPT !.C[c].loose = TRUE]

\* A shared port: the first four bytes choose the service once 36 are there.
RouteIn(S, c, e) ==
  LET S1 == [S EXCEPT !.C[c].rx = @ \o e.b]
      r == S1.C[c]
      whole == Len(e.b) = e.n
  IN IF Len(r.rx) < HeaderLen THEN (IF whole THEN S1 ELSE [S1 EXCEPT !.C[c].loose = TRUE])
     ELSE IF IsPrefixOf(Magic, r.rx)
          THEN IF ~ whole THEN [S1 EXCEPT !.C[c].loose = TRUE] ELSE TunAdv([S1 EXCEPT !.C[c].ph = "auth"], c)
          ELSE [S1 EXCEPT !.C[c].ph = "web", !.C[c].rx = <<>>]

ReqsOf(S, c) == IF c \in DOMAIN S.reqs THEN S.reqs[c] ELSE <<>>

\* requests of c that have become complete with bytes received now
Noticed(S, c) ==
  LET r == S.C[c] IN
  IF r.svc \notin {"http", "https", "shared"} THEN S
  ELSE LET n == Complete(ReqsOf(S, c), r.rxn) - Len(r.seen)
       IN IF n <= 0 THEN S ELSE [S EXCEPT !.C[c].seen = @ \o [i \in 1..n |-> S.now]]

(* ---------------------------------------------------------------- input *)
\* bytes from c are certainly taken up (they may not be while those before
\* them wait for the other endpoint)
Taken(S, c) ==
  LET r == S.C[c] IN
  IF Web(r) THEN c \notin S.blk
  ELSE IF r.svc = "local" THEN r.sent = 0 \/ (r.ph = "relay" /\ r.up \notin S.blk)
  ELSE r.ph # "relay" \/ r.up \notin S.blk

OnIn(S, e) ==
  IF e.c \in DOMAIN S.C THEN
    LET S1 == Noticed([S EXCEPT !.C[e.c].prog = IF Taken(S, e.c) THEN S.now ELSE @, !.C[e.c].act = S.now, !.C[e.c].first = TRUE, !.C[e.c].rxn = @ + e.n], e.c)
        r == S1.C[e.c]
    IN IF ~ r.fit THEN S1
       ELSE CASE r.svc = "local" ->
              LET S2 == IF e.p = r.sent THEN [S1 EXCEPT !.C[e.c].sent = @ + e.n] ELSE [S1 EXCEPT !.C[e.c].loose = TRUE]
              IN IF r.ph = "new" THEN [S2 EXCEPT !.C[e.c].ph = "dial"] ELSE S2
         [] Web(r) -> S1
         [] r.svc = "shared" /\ r.ph = "route" -> RouteIn(S1, e.c, e)
         [] OTHER -> TunIn(S1, e.c, e)
  ELSE IF e.c \in DOMAIN S.U THEN
    LET u == S.U[e.c]
        S1 == [S EXCEPT !.U[e.c].sent = IF e.p = @ THEN @ + e.n ELSE @, !.U[e.c].act = S.now, !.U[e.c].prog = S.now,
                        !.U[e.c].odd = @ \/ e.p # u.sent]
        S2 == IF u.own # "" /\ e.p # u.sent THEN [S1 EXCEPT !.C[u.own].loose = TRUE] ELSE S1
    IN IF u.own # "" THEN [S2 EXCEPT !.C[u.own].prog = IF u.own \notin S.blk THEN S.now ELSE @, !.C[u.own].act = S.now] ELSE S2
  ELSE S

\* bytes that are not (yet) any plaintext
OnWire(S, e) ==
  IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].act = S.now, !.C[e.c].prog = IF S.C[e.c].hs THEN @ ELSE S.now, !.C[e.c].first = TRUE]
  ELSE IF e.c \in DOMAIN S.U THEN
    LET S1 == [S EXCEPT !.U[e.c].act = S.now, !.U[e.c].prog = S.now] IN
    IF S.U[e.c].own # "" THEN [S1 EXCEPT !.C[S.U[e.c].own].act = S.now] ELSE S1
  ELSE S

(* ---------------------------------------------------------------- output *)
\* literal bytes to a client
LitOut(S, e) ==
  LET c == e.c
      r == S.C[c]
      S1 == [S EXCEPT !.C[c].prog = S.now, !.C[c].act = S.now]
      o == r.ob \o e.b
  IN CASE ~ r.fit -> IF IsPrefixOf(Take(o, 2), <<21, 3>>) \/ r.svc \in {"http", "local"} THEN [S1 EXCEPT !.C[c].ob = Take(o, 2)] ELSE Flag(S1, c, {"P22", "P04"})
       [] r.fit /\ r.svc # "local" /\ r.ph = "greply" ->
            IF ~ IsPrefixOf(o, GreetingReply) THEN Flag(S1, c, {"P05"})
            ELSE IF Len(o) < 2 THEN [S1 EXCEPT !.C[c].ob = o]
            ELSE [S1 EXCEPT !.C[c].ob = <<>>, !.C[c].ph = "req"]
       [] r.fit /\ r.svc # "local" /\ r.ph = "sreply" ->
            IF ~ IsPrefixOf(Take(o, 4), SuccessPrefix) \/ Len(o) > SuccessLen THEN Flag(S1, c, {"P06"})
            ELSE IF Len(o) < SuccessLen THEN [S1 EXCEPT !.C[c].ob = o]
            ELSE [S1 EXCEPT !.C[c].ob = <<>>, !.C[c].ph = "relay"]
       [] r.fit /\ r.loose -> S1
       [] r.fit /\ ~ r.loose /\ r.ph = "relay" -> Flag(S1, c, {"P01"} \cup (IF r.svc = "local" THEN {"P19"} ELSE {"P06"}))
       [] r.fit /\ ~ r.loose /\ r.svc = "local" /\ r.ph # "relay" -> Flag(S1, c, {"P01", "P19"})
       [] r.fit /\ ~ r.loose /\ r.ph = "bad" -> Flag(S1, c, r.why \cup {"P06"})
       [] OTHER -> Flag(S1, c, PhaseTags(S, c) \cup {"P06"})

\* a run of bytes [off, off+n) of the stream that endpoint e.s sends
RunOut(S, e) ==
  IF e.c \in DOMAIN S.C THEN
    LET c == e.c
        r == S.C[c]
        S1 == [S EXCEPT !.C[c].prog = S.now, !.C[c].act = S.now]
    IN IF r.svc = "local" \/ r.ph = "relay"
       THEN IF r.up # "" /\ e.s = r.up /\ e.o = r.got /\ e.o + e.n <= S.U[r.up].sent
            THEN [S1 EXCEPT !.C[c].got = @ + e.n]
            ELSE IF r.up # "" /\ S.U[r.up].odd /\ e.s \in {r.up, "?"} THEN S1     \* what it sent cannot be told apart
            ELSE Flag(S1, c, {"P01"} \cup (IF e.s \notin {r.up, "?"} THEN {"P16"} ELSE {}))
       ELSE IF r.loose THEN S1 ELSE Flag(S1, c, {"P01", "P06"} \cup PhaseTags(S, c))
  ELSE
    LET u == e.c
        r == S.U[u]
        c == r.own
        S1 == [S EXCEPT !.U[u].act = S.now]
    IN IF c = "" THEN S1
       ELSE LET S2 == [S1 EXCEPT !.C[c].prog = S.now, !.C[c].act = S.now]
                local == S.C[c].svc = "local"
            IN IF local /\ ~ r.hdr THEN Flag(S2, c, {"P19"})
               ELSE IF S.C[c].ph # "relay" /\ ~ local /\ ~ S.C[c].loose THEN Flag(S2, c, {"P01", "P06"})
               ELSE IF e.s = c /\ e.o = r.got /\ e.o + e.n <= S.C[c].sent
               THEN [S2 EXCEPT !.U[u].got = @ + e.n]
               ELSE IF S.C[c].loose THEN S2
               ELSE Flag(S2, c, {"P01"} \cup (IF local THEN {"P19"} ELSE {}) \cup (IF e.s \notin {c, "?"} THEN {"P16"} ELSE {}))

\* literal bytes to the tunnel server (local role): the header
UpLit(S, e) ==
  LET u == e.c
      r == S.U[u]
      c == r.own
      o == r.ob \o e.b
      h == HeaderFor(S.cfg.authkey)
      S1 == [S EXCEPT !.U[u].act = S.now]
  IN IF c = "" THEN S1
     ELSE IF S.C[c].svc # "local" \/ r.hdr THEN (IF S.C[c].loose THEN S1 ELSE Flag(S1, c, {"P01"}))
     ELSE IF ~ IsPrefixOf(o, h) THEN Flag(S1, c, {"P19"})
     ELSE IF Len(o) < HeaderLen THEN [S1 EXCEPT !.U[u].ob = o]
     ELSE [S1 EXCEPT !.U[u].ob = <<>>, !.U[u].hdr = TRUE, !.C[c].ph = "relay", !.C[c].prog = S.now, !.C[c].act = S.now]

OnOut(S, e) ==
  IF e.c \in DOMAIN S.C
  THEN IF e.k = "lit" THEN LitOut(S, e) ELSE RunOut(S, e)
  ELSE IF e.c \in DOMAIN S.U
  THEN IF e.k = "lit" THEN UpLit(S, e) ELSE RunOut(S, e)
  ELSE S

\* bytes in clear on a connection that has to be encrypted
OnOutRaw(S, e) ==
  IF e.c \in DOMAIN S.U /\ S.U[e.c].own # "" THEN Flag(S, S.U[e.c].own, {"P19"})
  ELSE IF e.c \in DOMAIN S.C THEN Flag(S, e.c, {"P22"}) ELSE S

(* ---------------------------------------------------------------- web *)
\* what a response to request q that was there at time `at' says of itself:
\* when it was made (to the second), what kind of contents it has, whether
\* the connection is going to be kept
Seconds(S, ms) == S.cfg.sec + (S.cfg.ms + ms) \div 1000
Stated(S, q, a, at, e) ==
  /\ \E x \in (Seconds(S, at) - 1)..Seconds(S, S.now) : e.date = DateText(S.cfg.day, x)
  /\ a.k # "close" => e.keep = (IF q.keep THEN "keep-alive" ELSE "close")
  /\ a.k = "exact" /\ ~ q.api => e.type = MediaType(q.path)

\* head of a response
OnRsp(S, e) ==
  LET c == e.c
      r == S.C[c]
      rs == ReqsOf(S, c)
      k == r.n + 1
      S0 == [S EXCEPT !.C[c].prog = S.now, !.C[c].act = S.now]
      S1 == IF r.loose \/ r.taint \/ ~ Web(r) \/ ~ e.wf \/ r.inrsp \/ k > Len(r.seen) THEN S0
            ELSE IF Stated(S, rs[k], Answer(S.fs, rs[k]), r.seen[k], e) THEN S0 ELSE [S0 EXCEPT !.t = @ \cup {"P28"}]
  IN IF r.loose THEN S1
     ELSE IF ~ Web(r) THEN Flag(S1, c, PhaseTags(S, c) \cup {"P06", "P22"})
     ELSE IF ~ e.wf \/ r.inrsp THEN Flag(S1, c, {"P10"})
     ELSE IF k > Complete(rs, r.rxn) \/ r.must >= 0
     THEN Flag(S1, c, {"P10"} \cup (IF r.must < 0 /\ k <= Len(rs) THEN {"P09"} ELSE {}))     \* not all of it is there
     ELSE LET a == Answer(S.fs, rs[k])
              good == CASE a.k = "exact" -> SuccessStatus(e.status) /\ e.clen = a.len
                        [] a.k = "text" -> SuccessStatus(e.status)
                        [] a.k = "maybe" -> ErrorStatus(e.status) \/ (SuccessStatus(e.status) /\ e.clen = a.len)
                        [] OTHER -> ErrorStatus(e.status)
              id == rs[k].id
              same == id \notin DOMAIN S.sigs \/ S.sigs[id] = e.sig
          IN IF ~ good THEN Flag(S1, c, {"P10"} \cup (IF rs[k].esc THEN {"P11"} ELSE {}) \cup (IF ~ same THEN {"P09"} ELSE {}))
             ELSE IF ~ same THEN Flag(S1, c, {"P09"})
             ELSE [S1 EXCEPT !.C[c].inrsp = TRUE, !.C[c].clen = e.clen, !.C[c].cur = 0,
                             !.sigs = IF id \in DOMAIN @ THEN @ ELSE @ @@ (id :> e.sig)]

\* a run of body bytes (n = 0: the body is complete)
OnBody(S, e) ==
  LET c == e.c
      r == S.C[c]
      S1 == [S EXCEPT !.C[c].prog = S.now, !.C[c].act = S.now]
  IN IF r.loose \/ r.taint THEN S1
     ELSE IF ~ r.inrsp THEN Flag(S1, c, {"P10"})
     ELSE LET q == ReqsOf(S, c)[r.n + 1]
              a == Answer(S.fs, q)
              good == CASE a.k = "exact" -> e.n = 0 \/ (e.s = a.src /\ e.o = r.cur)
                        [] a.k = "maybe" -> e.n = 0 \/ (e.s = a.src /\ e.o = r.cur) \/ e.s = "?"
                        [] OTHER -> e.n = 0 \/ e.s = "?"
              done == r.cur + e.n = r.clen
              S2 == IF ~ done THEN [S1 EXCEPT !.C[c].cur = @ + e.n]
                    ELSE LET S3 == [S1 EXCEPT !.C[c].inrsp = FALSE, !.C[c].n = @ + 1, !.C[c].cur = 0, !.C[c].at = S.now]
                         IN IF q.keep THEN S3 ELSE Must(S3, c, {"P10"})
          IN IF ~ good \/ r.cur + e.n > r.clen THEN Flag(S1, c, {"P10"} \cup (IF a.k # "exact" THEN {"P11"} ELSE {}))
             ELSE S2

\* a file was opened by the worker (its path from the installation directory
\* on): one of the document root, or one of the worker's own
OwnFile(segs) == Plain(segs) /\ (segs[1] \in {"logs", "own"} \/ segs \in {<<"cert.pem">>, <<"key.pem">>, <<"keys.json">>, <<"config", "config.json">>})
OnOpen(S, e) == IF e.below /\ (Within(<<"web">>, e.segs) \/ OwnFile(e.segs)) THEN S ELSE FlagAll(S, {"P11"})

(* ---------------------------------------------------------------- names *)
Resolving(S) == {c \in DOMAIN S.C : S.C[c].ph = "resolve" /\ S.C[c].dq = "" /\ IsOpen(S, c)}

OnQuery(S, e) ==
  IF e.c \in DOMAIN S.D THEN \* a repetition
     (IF S.D[e.c].own = "" THEN S ELSE Flag(S, S.D[e.c].own, {"P07"}))
  ELSE
  LET cand == {c \in Resolving(S) : ~ S.C[c].loose /\ IsQueryFor(e.b, S.C[c].name)}
      lax == {c \in DOMAIN S.C : S.C[c].loose /\ S.C[c].dq = "" /\ S.C[c].up = "" /\ IsOpen(S, c)}
      D1(own, nm) == [S EXCEPT !.D = @ @@ (e.c :> [own |-> own, name |-> nm, q |-> e.b, open |-> TRUE])]
  IN IF cand # {}
     THEN LET c == CHOOSE x \in cand : TRUE
              S1 == [D1(c, S.C[c].name) EXCEPT !.C[c].dq = e.c, !.C[c].at = S.now]
          IN IF e.ip = S.cfg.resolver /\ e.port = 53 THEN S1 ELSE Flag(S1, c, {"P07"})
     ELSE IF lax # {}
     THEN LET best == {x \in lax : S.C[x].ph = "resolve"}
              c == CHOOSE x \in (IF best # {} THEN best ELSE lax) : TRUE
          IN [D1(c, S.C[c].name) EXCEPT !.C[c].dq = e.c, !.C[c].at = S.now]
     ELSE LET S1 == D1("", <<>>)
              wrong == Resolving(S)
              live == {c \in DOMAIN S.C : S.C[c].ph = "dial" /\ S.C[c].kind = "cache" /\ S.C[c].up = "" /\ IsOpen(S, c)}
              early == {c \in DOMAIN S.C : S.C[c].ph \in {"auth", "greet", "route", "bad"} /\ IsOpen(S, c)}
          IN IF wrong # {} THEN Flag(S1, CHOOSE x \in wrong : TRUE, {"P07"})
             ELSE IF live # {} THEN Flag(S1, CHOOSE x \in live : TRUE, {"P08"})
             ELSE FlagAll(S1, {"P07"} \cup (IF early # {} THEN {"P04", "P05"} ELSE {}))

Expiry(S, ttl) == S.now + ttl * 1000

OnReply(S, e) ==
  IF e.c \notin DOMAIN S.D \/ ~ S.D[e.c].open \/ S.D[e.c].own = "" THEN S
  ELSE LET d == S.D[e.c]
           c == d.own
           r == S.C[c]
       IN IF e.ip # S.cfg.resolver \/ e.port # 53 THEN S
          ELSE IF r.ph # "resolve" /\ ~ r.loose THEN S
          \* what is kept of an answer to a sender following no protocol is not determined
          ELSE IF r.loose THEN
            LET m == IF Len(e.b) < 12 THEN [a |-> {}, all |-> FALSE] ELSE Meaning(e.b, d.q, d.name)
                ent == CacheOf(S, d.name)
                       \cup {[addr |-> x.addr, exp |-> Expiry(S, x.ttl), sure |-> FALSE] : x \in m.a}
                       \cup {[addr |-> <<0, 0, 0, 0>>, exp |-> Expiry(S, TtlMax), sure |-> FALSE]}
            IN [S EXCEPT !.cache = (d.name :> {[x EXCEPT !.sure = FALSE] : x \in ent}) @@ @]
          \* too short to be a message: it may be taken for a failure or passed over
          ELSE IF Len(e.b) < 12 THEN [S EXCEPT !.C[c].may = TRUE]
          ELSE IF e.b[1] # d.q[1] \/ e.b[2] # d.q[2] THEN S
          ELSE LET m == Meaning(e.b, d.q, d.name)
                   keep == {[addr |-> x.addr, exp |-> Expiry(S, x.ttl), sure |-> m.all /\ ~ S.fault] : x \in {y \in m.a : y.ttl > 0}}
                   old == {x \in CacheOf(S, d.name) : S.now <= x.exp}
                   \* one record of several is kept; which one is not determined
                   new == IF old = {} THEN keep ELSE keep \cup old
                   some == old # {} \/ {y \in m.a : y.ttl = 0} # {} \/ \E x, y \in new : x.exp # y.exp
                   ent == IF some THEN {[x EXCEPT !.sure = FALSE] : x \in new} ELSE new
                   S1 == IF keep = {} THEN S
                         ELSE [S EXCEPT !.cache = IF d.name \in DOMAIN @ THEN [@ EXCEPT ![d.name] = ent] ELSE @ @@ (d.name :> ent)]
               IN IF m.a = {} THEN Must([S EXCEPT !.C[c].ph = "bad"], c, {"P07", "P06"})
                  ELSE [S1 EXCEPT !.C[c].ph = "dial", !.C[c].kind = "dns", !.C[c].at = S.now,
                                  !.C[c].addrs = {x.addr : x \in m.a}, !.C[c].may = ~ m.all]

(* ---------------------------------------------------------------- outbound connections *)
OnDial(S, e) ==
  LET U1(own, st) == [S EXCEPT !.U = @ @@ (e.c :> [NewUp(own, st, S.now) EXCEPT !.tls = e.tls])]
      st == CASE e.res = "ok" -> "up" [] e.res \in {"refuse", "unreach"} -> "failed" [] OTHER -> "dialing"
      After(T, c) ==   \* immediate outcomes
        CASE st = "up" -> [T EXCEPT !.C[c].ph = IF @ = "dial" /\ T.C[c].svc # "local" THEN "sreply" ELSE @]
          [] st = "failed" -> Must(T, c, IF T.C[c].svc = "local" THEN {"P19"} ELSE {"P06"})
          [] OTHER -> T
  IN IF S.cfg.mode = "c" THEN
       IF e.own \in DOMAIN S.C /\ S.C[e.own].up = "" /\ S.C[e.own].svc = "local" /\ IsOpen(S, e.own)
       THEN LET c == e.own
                S1 == [U1(c, st) EXCEPT !.C[c].up = e.c, !.C[c].at = S.now, !.C[c].ph = "dial"]
            IN IF e.ip = S.cfg.servip /\ e.port = S.cfg.servport THEN After(S1, c) ELSE Flag(S1, c, {"P19"})
       ELSE FlagAll(U1("", st), {"P19"})
     ELSE
       LET ready == {c \in DOMAIN S.C : IsOpen(S, c) /\ S.C[c].up = "" /\ S.C[c].ph \in {"dial", "resolve"} /\ S.C[c].svc \in {"tun", "shared"}}
           byport == {c \in ready : S.C[c].port = e.port}
           exact == {c \in byport : e.ip \in S.C[c].addrs}
           lax == {c \in DOMAIN S.C : IsOpen(S, c) /\ S.C[c].loose /\ ~ S.C[c].aim}
           again == {c \in DOMAIN S.C : IsOpen(S, c) /\ S.C[c].up # "" /\ S.C[c].port = e.port}
           Bind(c) == [U1(c, st) EXCEPT !.C[c].up = e.c, !.C[c].at = S.now, !.C[c].ph = "dial"]
           \* a cached answer narrows down to the address used first
           Narrow(T, c) ==
             LET nm == T.C[c].name IN
             IF T.C[c].kind \in {"dns", "cache"} /\ nm \in DOMAIN T.cache
             THEN LET same == {x \in T.cache[nm] : x.addr = e.ip} IN
                  IF same # {} /\ \A x \in T.cache[nm] : x.sure THEN [T EXCEPT !.cache[nm] = same] ELSE T
             ELSE T
       IN IF exact # {} THEN LET c == CHOOSE x \in exact : TRUE IN After(Narrow(Bind(c), c), c)
          ELSE IF lax # {} THEN
               LET c == CHOOSE x \in lax : TRUE IN
               IF S.C[c].up = "" THEN After(Bind(c), c) ELSE U1("", st)
          ELSE IF byport # {} THEN
               LET c == CHOOSE x \in byport : TRUE IN
               Flag(Bind(c), c, {"P05"} \cup (CASE S.C[c].kind = "cache" /\ S.C[c].ph = "dial" -> {"P08"}
                                                [] S.C[c].kind = "cache" /\ S.C[c].ph = "resolve" -> {"P08", "P07"}
                                                [] S.C[c].kind = "dns" -> {"P07"} [] OTHER -> {}))
          ELSE LET S1 == U1("", st)
                   early == {c \in DOMAIN S.C : IsOpen(S, c) /\ S.C[c].ph \in {"auth", "greet", "route"}}
                   bad == {c \in DOMAIN S.C : IsOpen(S, c) /\ S.C[c].ph = "bad"}
                   T1 == IF again # {} THEN Flag(S1, CHOOSE x \in again : TRUE, {"P05"}) ELSE S1
                   T2 == IF ready # {} THEN Flag(T1, CHOOSE x \in ready : TRUE, {"P05"}) ELSE T1
                   T3 == IF bad # {} THEN LET b == CHOOSE x \in bad : TRUE IN Flag(T2, b, S.C[b].why \cup {"P05"}) ELSE T2
               IN FlagAll(T3, {"P05"} \cup (IF early # {} THEN {"P04"} ELSE {}))

OnDialRes(S, e) ==
  IF e.c \notin DOMAIN S.U \/ S.U[e.c].st # "dialing" THEN S
  ELSE LET c == S.U[e.c].own
           S1 == [S EXCEPT !.U[e.c].st = IF e.ok THEN "up" ELSE "failed", !.U[e.c].act = S.now, !.U[e.c].prog = S.now, !.U[e.c].up = e.ok]
       IN IF c = "" THEN S1
          ELSE IF e.ok THEN [S1 EXCEPT !.C[c].ph = IF S.C[c].svc # "local" /\ @ = "dial" THEN "sreply" ELSE @,
                                       !.C[c].act = S.now, !.C[c].prog = S.now]
          ELSE Must(MustUp(S1, e.c, {"P14"}), c, IF S.C[c].svc = "local" THEN {"P19", "P14"} ELSE {"P06", "P14"})

(* ---------------------------------------------------------------- endings made by the peers *)
\* a TLS peer whose stream ends without its saying so takes nothing any more
Ending(S, e) ==
  IF \/ e.c \in DOMAIN S.C /\ S.C[e.c].tls /\ S.C[e.c].end = "no"
     \/ e.c \in DOMAIN S.U /\ S.U[e.c].tls /\ S.U[e.c].end = "no"
  THEN "cut" ELSE "fin"

OnEnd(S, e, how) ==
  IF e.c \in DOMAIN S.C
  THEN [S EXCEPT !.C[e.c].end = IF @ = "no" \/ how = "rst" THEN how ELSE @, !.C[e.c].endAt = S.now, !.C[e.c].act = S.now,
                 !.C[e.c].first = TRUE,
                 !.C[e.c].ph = IF @ = "new" /\ how # "rst" THEN "endnew" ELSE @]
  ELSE IF e.c \in DOMAIN S.U
  THEN LET S1 == [S EXCEPT !.U[e.c].end = IF @ = "no" \/ how = "rst" THEN how ELSE @, !.U[e.c].endAt = S.now, !.U[e.c].act = S.now]
       IN IF S.U[e.c].own = "" THEN S1 ELSE [S1 EXCEPT !.C[S.U[e.c].own].act = S.now]
  ELSE S

OnJunk(S, e) ==
  IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].junk = TRUE]
  ELSE IF e.c \in DOMAIN S.U THEN [S EXCEPT !.U[e.c].junk = TRUE]
  ELSE S

(* ---------------------------------------------------------------- closing by the worker *)
\* the two legs of an established tunnel, as [end, endAt, sent, got, junk] records
LegC(S, c) == S.C[c]
LegU(S, c) == S.U[S.C[c].up]

\* bytes x sent have all been delivered to y, or y does not count any more
Settled(x, y) == x.end = "rst" \/ (x.end = "cut" /\ x.got < y.sent) \/ x.junk \/ y.got = x.sent \/ y.end # "no" \/ y.junk

\* an established tunnel may be torn down
TearOK(S, c) ==
  LET a == LegC(S, c)
      b == LegU(S, c)
  IN \/ (a.end # "no" \/ a.junk) /\ Settled(a, b)
     \/ (b.end # "no" \/ b.junk) /\ Settled(b, a)
     \/ S.now - a.prog >= IdleLimit

\* an established tunnel has to be torn down by now (while the other endpoint
\* is not accepting, what this one sent before may still be offered to it,
\* even if the other has ended its own stream or this one was reset)
TearDue(S, c, e) ==
  LET a == LegC(S, c)
      b == LegU(S, c)
  IN \/ a.end # "no" /\ (((a.end = "rst" \/ b.end # "no") /\ S.C[c].up \notin e.blk) \/ b.got = a.sent \/ b.end = "rst")
     \/ b.end # "no" /\ (((b.end = "rst" \/ a.end # "no") /\ c \notin e.blk) \/ a.got = b.sent \/ a.end = "rst")

\* the silence after which a connection may be dropped: [since, lim], and the
\* silence after which it has to be
PatienceMin(S, c) ==
  LET r == S.C[c] IN
  IF ~ r.first THEN [since |-> r.prog, lim |-> FirstByteLimit]
  ELSE IF r.tls /\ ~ r.hs THEN [since |-> r.prog, lim |-> HandshakeMin]
  ELSE IF ~ r.fit THEN [since |-> r.prog, lim |-> HandshakeMin]
  ELSE IF Web(r) \/ r.ph = "route" THEN [since |-> r.prog, lim |-> WebLimit]
  ELSE CASE r.ph = "resolve" -> [since |-> r.at, lim |-> ResolveLimit]
         [] r.ph = "dial" /\ r.svc = "local" /\ UpOpen(S, c) /\ S.U[r.up].st = "up" ->
              [since |-> S.U[r.up].prog, lim |-> HandshakeMin]
         [] r.ph = "dial" -> [since |-> r.at, lim |-> SetupLimit]
         [] OTHER -> [since |-> r.prog, lim |-> SetupLimit]

PatienceMax(S, c) ==
  LET r == S.C[c] IN
  IF ~ r.first THEN [since |-> r.act, lim |-> FirstByteLimit]
  ELSE IF r.tls /\ ~ r.hs THEN [since |-> r.act, lim |-> HandshakeMax]
  ELSE IF ~ r.fit THEN [since |-> r.act, lim |-> HandshakeMax]
  ELSE IF Web(r) \/ r.ph = "route" THEN [since |-> r.act, lim |-> WebLimit]
  ELSE CASE r.ph = "resolve" -> [since |-> r.at, lim |-> ResolveLimit]
         [] r.ph = "dial" /\ r.svc # "local" -> [since |-> Max2(r.at, r.act), lim |-> SetupLimit]
         [] r.ph = "dial" /\ r.up # "" -> [since |-> Max2(r.at, S.U[r.up].act), lim |-> SetupLimit]
         [] OTHER -> [since |-> r.act, lim |-> SetupLimit]

TimedOut(S, c) == LET p == PatienceMin(S, c) IN S.now - p.since >= p.lim

UpLost(S, c) ==
  LET r == S.C[c] IN
  r.up # "" /\ LET u == S.U[r.up] IN u.st \in {"failed", "closed"} \/ u.end # "no" \/ u.junk

\* the next request on web connection c is one that may be refused by closing
Refusable(S, c) ==
  LET r == S.C[c]
      rs == ReqsOf(S, c)
      k == r.n + 1
  IN Web(r) /\ ~ r.inrsp /\ k <= Len(rs) /\ rs[k].head <= r.rxn /\ Answer(S.fs, rs[k]).k \in {"close", "maybe"}

\* the worker has a reason to close client connection c
CloseOK(S, c) ==
  LET r == S.C[c] IN
  \/ S.stop \/ r.must >= 0 \/ r.loose \/ r.may \/ r.hurt \/ r.junk \/ ~ r.fit
  \/ IF r.ph = "relay" /\ r.up # ""
     THEN S.U[r.up].st = "closed" \/ TearOK(S, c)
     ELSE r.end # "no" \/ TimedOut(S, c) \/ UpLost(S, c) \/ Refusable(S, c) \/ r.lost

DropTags(S, c) ==
  LET r == S.C[c] IN
  {"P13"} \cup PhaseTags(S, c) \cup
  (IF r.ph = "relay" THEN {"P02"} ELSE {}) \cup
  (IF Web(r) THEN {"P09"} ELSE {}) \cup
  (IF r.ph = "greply" THEN {"P04"} ELSE {})

\* one side of a session is closed because a limit has passed: the other has reached it as well
LimitTags(S, c) == IF S.C[c].end = "no" /\ TimedOut(S, c) THEN {"P13"} ELSE {}

CloseConn(S, e) ==
  LET c == e.c
      r == S.C[c]
      S1 == IF CloseOK(S, c) THEN S ELSE Flag(S, c, DropTags(S, c))
      S2 == [S1 EXCEPT !.C[c].st = "closed"]
  IN IF UpOpen(S, c) THEN MustUp(S2, r.up, {"P02", "P14"} \cup LimitTags(S, c)) ELSE S2

CloseUp(S, e) ==
  LET u == e.c
      r == S.U[u]
      c == r.own
      S1 == [S EXCEPT !.U[u].st = "closed"]
  IN IF c = "" THEN S1
     ELSE LET k == S.C[c]
              ok == \/ S.stop \/ r.must >= 0 \/ k.must >= 0 \/ k.st = "closed" \/ k.loose \/ k.hurt \/ r.junk \/ k.junk
                    \/ IF k.ph = "relay" THEN TearOK(S, c)
                       ELSE r.end # "no" \/ k.end # "no" \/ r.st = "failed" \/ TimedOut(S, c)
              S2 == IF ok THEN S1 ELSE Flag(S1, c, DropTags(S, c))
          IN IF k.st = "open" THEN Must(S2, c, LimitTags(S, c) \cup (IF k.ph = "relay" THEN {"P02", "P14"}
                                                ELSE IF k.svc = "local" THEN {"P19", "P14"} ELSE {"P06", "P14"})) ELSE S2

OnClose(S, e) ==
  IF e.c \in DOMAIN S.C THEN CloseConn(S, e)
  ELSE IF e.c \in DOMAIN S.U THEN CloseUp(S, e)
  ELSE IF e.c \in DOMAIN S.D THEN [S EXCEPT !.D[e.c].open = FALSE]
  ELSE S

(* ---------------------------------------------------------------- quiescence *)
\* connection x (a client connection or an outbound one) is closed, or a TLS
\* leg is on its way out, `since' being when that became due
\* (it tells a TLS peer so at once, unless a record it had to leave
\* incomplete is in the way)
Cut(S, name) ==
  IF name \in DOMAIN S.C
  THEN S.C[name].up # "" /\ S.C[name].got < S.U[S.C[name].up].sent
  ELSE S.U[name].own # "" /\ S.U[name].got < S.C[S.U[name].own].sent
Going(S, x, since, e, name) ==
  \/ x.st = "closed"
  \/ x.tls /\ (x.cn \/ name \in e.blk \/ Cut(S, name)) /\ S.now - since <= Linger

\* obligations of a connection in its present phase that need no time
Deaf(r, c, e) == r.ku /\ c \in e.blk

Due(S, c, e) ==
  LET r == S.C[c]
      free == c \notin e.blk
  IN IF r.loose \/ r.junk \/ r.hurt \/ ~ r.fit \/ r.must >= 0 THEN {}
     ELSE IF Web(r) /\ (~ r.tls \/ r.hs) THEN
       IF r.end # "no" \/ ~ free THEN {}
       ELSE LET rs == ReqsOf(S, c)
                k == r.n + 1
            IN IF r.inrsp THEN (IF r.lost /\ Going(S, r, r.prog, e, c) THEN {} ELSE {"P10", "P09"})
               ELSE IF k <= Complete(rs, r.rxn)
               THEN (IF (Refusable(S, c) \/ r.lost) /\ Going(S, r, r.prog, e, c) THEN {} ELSE {"P10", "P09"}) ELSE {}
     ELSE IF r.tls /\ ~ r.hs THEN
       IF r.end # "no" \/ ~ free \/ c \in e.und THEN {} ELSE PhaseTags(S, c) \cup {"P21"}
     ELSE IF r.ph = "relay" /\ UpOpen(S, c) THEN
       LET u == S.U[r.up] IN
       \* a peer that asks for new keys and does not take the answer is not read from
       IF TearDue(S, c, e) /\ ~ Deaf(r, c, e) /\ ~ Deaf(u, r.up, e) THEN
          (IF Going(S, r, Max2(r.prog, Max2(r.endAt, u.endAt)), e, c) /\ Going(S, u, Max2(r.prog, Max2(r.endAt, u.endAt)), e, r.up) THEN {} ELSE {"P02", "P14"})
       ELSE (IF u.end = "no" /\ ~ u.junk /\ r.up \notin e.blk /\ r.sent > u.got /\ ~ Deaf(r, c, e)
             THEN {"P03"} \cup (IF r.svc = "local" THEN {"P19"} ELSE {}) \cup (IF r.end # "no" THEN {"P02"} ELSE {}) ELSE {})
            \cup
            (IF r.end = "no" /\ c \notin e.blk /\ u.sent > r.got /\ ~ Deaf(u, r.up, e)
             THEN {"P03"} \cup (IF u.end # "no" THEN {"P02"} ELSE {}) ELSE {})
     ELSE IF r.svc = "local" THEN
       IF r.end = "rst" THEN {}
       ELSE IF r.ph = "dial" /\ r.up = "" THEN (IF r.end = "no" THEN {"P19"} ELSE {})
       ELSE IF r.up # "" /\ UpOpen(S, c) /\ S.U[r.up].st = "up" /\ S.U[r.up].end = "no" /\ ~ S.U[r.up].junk
               /\ r.up \notin e.blk /\ r.up \notin e.und /\ r.end = "no"
            THEN {"P19", "P03"} ELSE {}
     ELSE IF r.end # "no" THEN
       \* an ended client that is being listened to is closed
       IF r.ph \in {"auth", "greet", "req", "route"} THEN
          (IF Going(S, r, r.endAt, e, c) THEN {} ELSE {"P14"})
       ELSE {}
     ELSE CASE r.ph = "greply" -> IF free THEN {"P05"} ELSE {}
            [] r.ph = "sreply" -> IF free /\ (r.up = "" \/ S.U[r.up].end = "no") THEN {"P06"} ELSE {}
            [] r.ph = "dial" /\ r.up = "" -> IF r.may THEN {} ELSE {"P05"} \cup PhaseTags(S, c)
            [] r.ph = "resolve" /\ r.dq = "" /\ r.up = "" -> {"P07", "P05"}
            [] OTHER -> {}

Late(S, c, e) ==
  LET r == S.C[c]
      p == PatienceMax(S, c)
  IN IF r.must >= 0 THEN (IF r.loose \/ Going(S, r, r.must, e, c) THEN {} ELSE r.why)
     ELSE IF S.now - p.since > p.lim + Slack /\ ~ Going(S, r, p.since + p.lim, e, c)
     THEN {"P13"} \cup PhaseTags(S, c) ELSE {}

ConnTags(S, c, e) ==
  LET r == S.C[c] IN
  IF r.taint THEN {}
  ELSE IF r.st = "queued" THEN (IF S.stop \/ r.end = "rst" THEN {} ELSE {"P16", "P22", "P23"})
  ELSE IF r.st = "open" THEN Due(S, c, e) \cup Late(S, c, e)
  ELSE {}

UpTags(S, u, e) ==
  LET r == S.U[u] IN
  IF r.st = "closed" THEN {}
  ELSE IF r.must >= 0 /\ ~ Going(S, r, r.must, e, u) THEN r.why
  ELSE {}

OpenSocks(S) ==
  Cardinality({c \in DOMAIN S.C : IsOpen(S, c)}) + Cardinality({u \in DOMAIN S.U : S.U[u].st # "closed"})
  + Cardinality({d \in DOMAIN S.D : S.D[d].open})

\* no answer can still be held
CacheGone(S) == \A n \in DOMAIN S.cache : \A x \in S.cache[n] : S.now > x.exp + SweepPeriod + Slack

\* a query may be pending only for a session that waits for it
DnsTags(S) ==
  IF \E d \in DOMAIN S.D : S.D[d].open /\ S.D[d].own # "" /\ S.C[S.D[d].own].st = "closed" /\ ~ S.C[S.D[d].own].loose THEN {"P14"} ELSE {}

ResTags(S, e) ==
  (IF e.socks # OpenSocks(S) THEN {"P14"} ELSE {}) \cup DnsTags(S) \cup
  (IF S.base.mem >= 0 /\ OpenSocks(S) = 0
   THEN IF e.ssl # S.base.ssl \/ e.files # S.base.files \/ e.sys # S.base.sys THEN {"P14"}
        ELSE IF CacheGone(S) /\ e.mem # S.base.mem THEN {"P14"} ELSE {}
   ELSE {})

OnQuiet(S, e) ==
  LET bad == {c \in DOMAIN S.C : ConnTags(S, c, e) # {}}
      badu == {u \in DOMAIN S.U : S.U[u].own # "" /\ ~ S.C[S.U[u].own].taint /\ UpTags(S, u, e) # {}}
      hit == bad \cup {S.U[u].own : u \in badu}
      tags == UNION ({ConnTags(S, c, e) : c \in bad} \cup {UpTags(S, u, e) : u \in badu})
      lifted == UNION {Lifted(S, c) : c \in hit}
      res == ResTags(S, e)
      S1 == [S EXCEPT !.blk = e.blk, !.t = @ \cup tags \cup lifted \cup (IF res # {} THEN res \cup (S.lift \cap {"P23"}) ELSE {}),
                      !.C = [c \in DOMAIN @ |-> IF c \in hit THEN [@[c] EXCEPT !.taint = TRUE] ELSE @[c]]]
  IN IF S.base.mem = -1 /\ OpenSocks(S) = 0 /\ CacheGone(S) THEN [S1 EXCEPT !.base = [mem |-> e.mem, ssl |-> e.ssl, files |-> e.files, sys |-> e.sys]] ELSE S1

(* ---------------------------------------------------------------- the step function *)
OnConn(S, e) ==
  IF e.refused
  THEN IF e.port \in Ports(S.cfg) /\ ~ S.stop THEN FlagAll(S, {"P22"}) ELSE S
  ELSE LET known == e.port \in Ports(S.cfg)
           svc == IF known THEN Service(S.cfg, e.port) ELSE "http"
           S1 == [S EXCEPT !.C = @ @@ (e.c :> [NewConn(svc, e.tls, S.now) EXCEPT !.loose = ~ known \/ e.c \in S.wild])]
       IN IF known THEN S1 ELSE FlagAll(S1, {"P22"})

OnHs(S, e) ==
  IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].hs = TRUE, !.C[e.c].act = S.now, !.C[e.c].prog = S.now]
  ELSE IF e.c \in DOMAIN S.U THEN [S EXCEPT !.U[e.c].hs = TRUE, !.U[e.c].act = S.now, !.U[e.c].prog = S.now] ELSE S

OnCn(S, e) ==
  IF e.c \in DOMAIN S.C
  THEN LET S1 == [S EXCEPT !.C[e.c].cn = TRUE] IN
       \* with a reason to close it, it has begun to
       IF CloseOK(S, e.c) THEN Must(S1, e.c, {"P13", "P14"}) ELSE S1
  ELSE IF e.c \in DOMAIN S.U THEN [S EXCEPT !.U[e.c].cn = TRUE] ELSE S

\* corrupt TLS from the worker on a healthy connection
OnBadTls(S, e) ==
  LET c == IF e.c \in DOMAIN S.C THEN e.c ELSE IF e.c \in DOMAIN S.U THEN S.U[e.c].own ELSE ""
      sick(x) == x.end # "no" \/ x.junk
  IN IF c = "" THEN S
     ELSE IF sick(S.C[c]) \/ S.C[c].loose \/ (S.C[c].up # "" /\ sick(S.U[S.C[c].up])) THEN S
     ELSE Flag(S, c, {"P01", "P19", "P10"} )

OnRoom(S, e) ==
  IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].act = S.now]
  ELSE IF e.c \in DOMAIN S.U THEN
    LET S1 == [S EXCEPT !.U[e.c].act = S.now] IN
    IF S.U[e.c].own # "" THEN [S1 EXCEPT !.C[S.U[e.c].own].act = S.now] ELSE S1
  ELSE S

OnFault(S, e) ==
  [S EXCEPT !.fault = TRUE,
            !.C = [c \in DOMAIN @ |-> IF c \in S.subjects /\ @[c].st # "closed" THEN [@[c] EXCEPT !.hurt = TRUE] ELSE @[c]]]

OnStart(S, e) ==
  LET S1 == [S EXCEPT !.started = TRUE] IN
  IF S.listens = Ports(S.cfg) THEN S1 ELSE FlagAll(S1, {"P22"})

Fatal == {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P16", "P19", "P20", "P21", "P22", "P23", "P27", "P28"}

\* e.e is the kind of the event, e.t its time (ms since start)
Apply(S, e) ==
  CASE e.e = "listen"  -> [S EXCEPT !.listens = @ \cup {e.port}]
    [] e.e = "start"   -> OnStart(S, e)
    [] e.e = "conn"    -> OnConn(S, e)
    [] e.e = "accept"  -> IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].st = "open", !.C[e.c].prog = S.now, !.C[e.c].act = S.now, !.C[e.c].at = S.now,
                                                       !.C[e.c].hurt = e.c \in S.subjects /\ S.fault] ELSE S
    [] e.e = "in"      -> OnIn(S, e)
    [] e.e = "wire"    -> OnWire(S, e)
    [] e.e = "ku"      -> LET T == OnWire(S, e) IN IF e.c \in DOMAIN T.C THEN [T EXCEPT !.C[e.c].ku = TRUE]
                                                 ELSE IF e.c \in DOMAIN T.U THEN [T EXCEPT !.U[e.c].ku = TRUE] ELSE T
    \* a file that c asked for has become shorter than it was then
    [] e.e = "shrunk"  -> IF e.c \in DOMAIN S.C THEN [S EXCEPT !.C[e.c].lost = TRUE] ELSE S
    [] e.e = "out"     -> OnOut(S, e)
    [] e.e = "outraw"  -> OnOutRaw(S, e)
    [] e.e = "rsp"     -> OnRsp(S, e)
    [] e.e = "body"    -> OnBody(S, e)
    [] e.e = "open"    -> OnOpen(S, e)
    [] e.e = "hsdone"  -> OnHs(S, e)
    [] e.e = "cn"      -> OnCn(S, e)
    [] e.e = "badtls"  -> OnBadTls(S, e)
    [] e.e = "notify"  -> OnEnd(S, e, "fin")
    [] e.e = "fin"     -> OnEnd(S, e, Ending(S, e))
    [] e.e = "rst"     -> OnEnd(S, e, "rst")
    [] e.e = "junk"    -> OnJunk(S, e)
    [] e.e = "room"    -> OnRoom(S, e)
    [] e.e = "dial"    -> OnDial(S, e)
    [] e.e = "dialres" -> OnDialRes(S, e)
    [] e.e = "close"   -> OnClose(S, e)
    [] e.e = "dnsq"    -> OnQuery(S, e)
    [] e.e = "dnsr"    -> OnReply(S, e)
    [] e.e = "tick"    -> S
    [] e.e = "q"       -> OnQuiet(S, e)
    \* what is in use now, when everything has been used before (so that what is
    \* kept for reuse is there), is compared with from here on
    [] e.e = "base"    -> [S EXCEPT !.base.mem = -1]
    [] e.e = "fault"   -> OnFault(S, e)
    [] e.e = "stop"    -> [S EXCEPT !.stop = TRUE]
    [] e.e = "exit"    -> IF S.stop THEN [S EXCEPT !.over = TRUE] ELSE FlagAll(S, Fatal)
    [] e.e = "nostop"  -> FlagAll(S, {"P17", "P18"})
    [] e.e = "badclose"-> IF S.stop THEN S ELSE FlagAll(S, {"P14"})
    [] e.e = "blocking"-> FlagAll(S, {"P21", "P16"})
    [] e.e = "crash"   -> FlagAll(S, Fatal)
    [] e.e = "hang"    -> FlagAll(S, Fatal)
    [] e.e = "end"     -> S

Step(S, e) == Apply([S EXCEPT !.now = e.t, !.t = {}], e)
=============================================================================
