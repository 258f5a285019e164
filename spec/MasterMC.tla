------------------------------ MODULE MasterMC ------------------------------
(* The design of the master: signals are blocked except while it waits;     *)
(* handlers only set marks (and collect dead workers); after each wait the  *)
(* marks are acted on in a fixed order.  Workers die on their own or after  *)
(* having been told, requests arrive at any moment.                         *)
(* Checked: no behaviour contradicts Master, every stop ends the service,   *)
(* every reload replaces the workers.  Forking may fail.                    *)
EXTENDS Master, TLC

CONSTANTS N, Deaths, Reloads, Stops, Fails,
  Flaw     \* "none", or how it goes wrong: "leave", "forget", "early", "wrong", "again", "deaf"

Stop == 2
Reload == 1
Chld == 17
Hdr == [role |-> "master", n |-> N, me |-> 4242, boss |-> 0, stop |-> Stop, reload |-> Reload,
        quits |-> {2}, tells |-> {2}, to |-> 0, ask |-> "", lift |-> {}]

VARIABLES S,      \* the specification's view
  pc,             \* "start", "fail", "wait", "quit", "reap", "reload", "gone"
  k,              \* position in the process table
  tab,            \* process number of each slot, 0: never started
  ex,             \* slots marked as exited
  next,           \* next process number
  pend,           \* signals pending
  mq, mr, ml,     \* marks: quit, reap, reload
  left,           \* what may still happen: deaths, reloads, stops
  gen             \* ghost: workers told by the last reload and still running

vars == <<S, pc, k, tab, ex, next, pend, mq, mr, ml, left, gen>>

\* a transition emits events
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run([Step(s, Head(es)) EXCEPT !.t = @ \cup s.t], Tail(es))

Init == /\ S = InitMaster(Hdr)
        /\ pc = "start" /\ k = 1 /\ tab = [i \in 1..N |-> 0] /\ ex = {} /\ next = 1
        /\ pend = {} /\ mq = FALSE /\ mr = FALSE /\ ml = FALSE
        /\ left = [d |-> Deaths, r |-> Reloads, s |-> Stops, f |-> Fails]
        /\ gen = {}

\* ---- the environment
Die(p, free) ==
  /\ p \in S.alive /\ pc # "gone"
  /\ IF free THEN left.d > 0 /\ left' = [left EXCEPT !.d = @ - 1] ELSE p \in S.told /\ UNCHANGED left
  /\ S' = Run(S, <<[e |-> "die", pid |-> p]>>)
  /\ pend' = pend \cup {Chld}
  /\ gen' = gen \ {p}
  /\ UNCHANGED <<pc, k, tab, ex, next, mq, mr, ml>>

Ask(s) ==
  /\ pc # "gone"
  /\ IF s = Stop THEN left.s > 0 /\ left' = [left EXCEPT !.s = @ - 1]
     ELSE left.r > 0 /\ left' = [left EXCEPT !.r = @ - 1]
  /\ S' = Run(S, <<[e |-> "post", s |-> s]>>)
  /\ pend' = pend \cup {s}
  /\ gen' = IF s = Reload THEN gen \cup S.alive ELSE gen
  /\ UNCHANGED <<pc, k, tab, ex, next, mq, mr, ml>>

\* ---- the master
Fork(to, slot) ==
  /\ S' = Run(S, <<[e |-> "fork", pid |-> next]>>)
  /\ tab' = [tab EXCEPT ![slot] = next]
  /\ next' = next + 1
  /\ ex' = ex \ {slot}

\* no process can be had
NoFork(slot) ==
  /\ left.f > 0 /\ left' = [left EXCEPT !.f = @ - 1]
  /\ S' = Run(S, <<[e |-> "forkfailed"]>>)
  /\ ex' = IF Flaw = "forget" THEN ex \ {slot} ELSE ex
  /\ UNCHANGED <<tab, next>>

Start ==
  /\ pc = "start"
  /\ \/ IF k <= N THEN Fork("start", k) /\ k' = k + 1 /\ UNCHANGED <<pc, left>>
        ELSE pc' = "wait" /\ UNCHANGED <<S, tab, next, ex, k, left>>
     \/ k <= N /\ NoFork(k) /\ pc' = "fail" /\ k' = k - 1
  /\ UNCHANGED <<pend, mq, mr, ml, gen>>

\* the workers there are are told to quit
Fail ==
  /\ pc = "fail"
  /\ IF k = 0 \/ Flaw = "leave"
     THEN S' = Run(S, <<[e |-> "exit", pidfile |-> 0]>>) /\ pc' = "gone" /\ UNCHANGED k
     ELSE S' = Run(S, <<[e |-> "kill", pid |-> tab[k], s |-> 2]>>) /\ k' = k - 1 /\ UNCHANGED pc
  /\ UNCHANGED <<tab, ex, next, pend, mq, mr, ml, left, gen>>

RECURSIVE Collected(_)
Collected(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE x \in ps : TRUE IN <<[e |-> "reap", pid |-> p]>> \o Collected(ps \ {p})

\* all pending signals are delivered, then the marks are acted on
Wait ==
  /\ pc = "wait"
  /\ IF pend = {}
     THEN /\ S' = Run(S, <<[e |-> "suspend", pidfile |-> 4242]>>)
          /\ S' # S
          /\ UNCHANGED <<pc, k, tab, ex, pend, mq, mr, ml>>
     ELSE /\ S' = Run(S, (IF Chld \in pend THEN Collected(S.dead) ELSE <<>>) \o (IF Stop \in pend THEN <<[e |-> "sig", s |-> Stop]>> ELSE <<>>)
                         \o (IF Reload \in pend THEN <<[e |-> "sig", s |-> Reload]>> ELSE <<>>))
          /\ mq' = (mq \/ Stop \in pend)
          /\ ml' = ((ml \/ Reload \in pend) /\ ~ (Flaw = "deaf" /\ Chld \in pend))
          /\ mr' = (mr \/ Chld \in pend)
          /\ ex' = IF Chld \in pend THEN {i \in 1..N : i \in ex \/ tab[i] \in S.dead} ELSE ex
          /\ pend' = {}
          /\ k' = 1
          /\ pc' = "quit"
          /\ UNCHANGED tab
  /\ UNCHANGED <<next, left, gen>>

Tell(to, k1) ==
  /\ IF k <= N /\ (k \notin ex \/ Flaw = "wrong")
     THEN S' = Run(S, <<[e |-> "kill", pid |-> tab[k], s |-> 2]>>)
     ELSE S' = S
  /\ IF k <= N THEN k' = k + 1 /\ pc' = pc ELSE k' = 1 /\ pc' = to

Quit ==
  /\ pc = "quit"
  /\ IF ~ mq THEN pc' = "reap" /\ k' = 1 /\ UNCHANGED S
     ELSE IF k = N + 1 /\ (ex = 1..N \/ (Flaw = "early" /\ ex # {}))
     THEN /\ S' = Run(S, <<[e |-> "exit", pidfile |-> 0]>>)
          /\ pc' = "gone" /\ UNCHANGED k
     ELSE Tell("reap", 1)
  /\ UNCHANGED <<tab, ex, next, pend, mq, mr, ml, left, gen>>

Reap ==
  /\ pc = "reap"
  /\ IF mr /\ k <= N
     THEN /\ IF k \in ex /\ (~ mq \/ Flaw = "again") THEN (Fork("reap", k) /\ UNCHANGED left) \/ NoFork(k) ELSE UNCHANGED <<S, tab, next, ex, left>>
          /\ k' = k + 1 /\ UNCHANGED <<pc, mr>>
     ELSE /\ pc' = "reload" /\ k' = 1 /\ mr' = FALSE /\ UNCHANGED <<S, tab, next, ex, left>>
  /\ UNCHANGED <<pend, mq, ml, gen>>

Rel ==
  /\ pc = "reload"
  /\ IF ml THEN Tell("wait", 1) /\ ml' = (k <= N)
     ELSE pc' = "wait" /\ UNCHANGED <<S, k, ml>>
  /\ UNCHANGED <<tab, ex, next, pend, mq, mr, left, gen>>

Master == Start \/ Fail \/ Wait \/ Quit \/ Reap \/ Rel
Told == \E p \in S.alive : Die(p, FALSE)
Env == (\E p \in S.alive : Die(p, TRUE)) \/ Ask(Stop) \/ Ask(Reload)
Next == Master \/ Told \/ Env

Spec == Init /\ [][Next]_vars /\ WF_vars(Master) /\ WF_vars(Told)

\* no behaviour contradicts the specification
Faithful == S.t = {}
\* a worker that was collected is never signalled again under its number
Table == \A i, j \in 1..N : i # j /\ tab[i] # 0 => tab[i] # tab[j]
StopEnds == S.asked ~> pc = "gone"
Replaced == (gen # {}) ~> (gen = {} \/ pc = "gone")
Restored == [](Cardinality(S.alive) < N /\ pc # "start" => <>(Cardinality(S.alive) = N \/ S.asked \/ left.f < Fails))
=============================================================================
