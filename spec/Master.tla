------------------------------- MODULE Master -------------------------------
(* What the supervising process owes its workers and whoever controls it.   *)
(*                                                                          *)
(* A scenario h describes one run of the program as                         *)
(*   role   "master": it supervises h.n workers                             *)
(*          "worker": it is one of the workers of process h.boss            *)
(*          "option": it was started to pass on a request                   *)
(*          "none": there is no configuration it could work with            *)
(*   me     the process number it has                                       *)
(*   stop   the signal asking the master to stop, reload the one asking it  *)
(*          to reload (what the command-line options send)                  *)
(*   quits  the signals at which a worker quits, tells the ones the master  *)
(*          uses for it                                                     *)
(*   to     the process number in the pid file before an option is handled, *)
(*          0 if there is no such file; ask the request passed on ("" none) *)
(*   lift   properties contradicted by whatever contradicts one             *)
(* The state t collects the properties an execution contradicts.            *)
EXTENDS Integers, Sequences, FiniteSets

InitMaster(h) ==
  [h |-> h, alive |-> {}, dead |-> {}, told |-> {}, owe |-> {}, open |-> FALSE,
   asked |-> FALSE, stopping |-> FALSE, short |-> FALSE, lack |-> FALSE, sent |-> {}, over |-> FALSE, up |-> FALSE, t |-> {}]

Blame(S, ps) == [S EXCEPT !.t = @ \cup ps]
BlameIf(S, c, ps) == IF c THEN Blame(S, ps) ELSE S

----------------------------------------------------------------------------
(* the master *)

OnFork(S, e) ==
  LET S1 == [S EXCEPT !.alive = @ \cup {e.pid}]
  IN BlameIf(S1, S.stopping \/ Cardinality(S1.alive) > S.h.n, {"P17"})

OnDie(S, e) == [S EXCEPT !.alive = @ \ {e.pid}, !.dead = @ \cup {e.pid}, !.owe = @ \ {e.pid}, !.told = @ \ {e.pid}]

OnPost(S, e) ==
  IF e.s = S.h.stop THEN [S EXCEPT !.asked = TRUE]
  \* all workers running now are to be replaced
  ELSE IF e.s = S.h.reload THEN [S EXCEPT !.owe = @ \cup S.alive, !.open = TRUE]
  ELSE S

OnSig(S, e) == IF e.s = S.h.stop THEN [S EXCEPT !.stopping = TRUE] ELSE S

OnKill(S, e) ==
  IF e.pid \notin S.alive \cup S.dead THEN Blame(S, {"P17"})
  ELSE IF e.s \in S.h.quits
  THEN LET S1 == [S EXCEPT !.told = @ \cup {e.pid}, !.owe = @ \ {e.pid}]
       IN BlameIf(S1, ~ S.asked /\ ~ S.open /\ ~ (S.short /\ ~ S.up), {"P17"})
  ELSE S

\* nothing is left to be done until something new arrives; what could not be
\* forked is made up for when the next worker has died
OnSuspend(S, e) ==
  LET S1 == [S EXCEPT !.open = FALSE, !.owe = {}, !.up = TRUE, !.lack = @ \/ S.short, !.short = FALSE]
      S2 == BlameIf(S1, S.owe # {}, {"P18"})
      S3 == BlameIf(S2, e.pidfile # S.h.me, {"P18"})
      S4 == BlameIf(S3, S.asked /\ ~ S.stopping, {"P17", "P18"})
  IN IF S.stopping
     THEN BlameIf(S4, S.alive = {} \/ ~ (S.alive \subseteq S.told), {"P17"})
     ELSE BlameIf(S4, Cardinality(S.alive) # S.h.n /\ ~ S.short /\ ~ S.lack, {"P17"})

\* it does not leave workers behind, not even when it cannot start them all
OnMasterExit(S, e) ==
  LET S1 == [S EXCEPT !.over = TRUE]
      S2 == BlameIf(S1, IF S.short /\ ~ S.up THEN ~ (S.alive \subseteq S.told) ELSE ~ S.stopping \/ S.alive # {}, {"P17"})
  IN BlameIf(S2, e.pidfile # 0, {"P18"})

MasterStep(S, e) ==
  CASE e.e = "fork" -> OnFork(S, e)
    [] e.e = "forkfailed" -> [S EXCEPT !.short = TRUE]
    [] e.e = "die" -> OnDie(S, e)
    [] e.e = "reap" -> [S EXCEPT !.dead = @ \ {e.pid}, !.lack = FALSE]
    [] e.e = "post" -> OnPost(S, e)
    [] e.e = "sig" -> OnSig(S, e)
    [] e.e = "kill" -> OnKill(S, e)
    [] e.e = "suspend" -> OnSuspend(S, e)
    [] e.e = "exit" -> OnMasterExit(S, e)
    \* before it can be found by its pid nobody asks it for anything
    [] e.e = "killed" -> BlameIf([S EXCEPT !.over = TRUE], e.pidfile = S.h.me, {"P17", "P18"})
    [] e.e = "end" -> BlameIf(S, ~ S.up, {"P17"})
    [] e.e \in {"crash", "hang"} -> Blame(S, {"P17", "P18"})
    [] OTHER -> S

----------------------------------------------------------------------------
(* a worker: once told to quit it quits, and the pid file is not its own *)

WorkerStep(S, e) ==
  CASE e.e = "ischild" -> [S EXCEPT !.up = TRUE]
    [] e.e = "sig" /\ S.up -> IF e.s \in S.h.tells THEN [S EXCEPT !.stopping = TRUE] ELSE S
    [] e.e = "exit" /\ S.up -> LET S1 == BlameIf([S EXCEPT !.over = TRUE], e.pidfile # S.h.boss, {"P18"})
                               IN BlameIf(S1, ~ S.stopping, {"P17"})
    [] e.e = "killed" /\ S.up -> LET S1 == BlameIf([S EXCEPT !.over = TRUE], e.pidfile # S.h.boss, {"P18"})
                                 IN BlameIf(S1, ~ S.stopping, {"P17"})
    [] e.e = "end" -> BlameIf(S, S.stopping /\ ~ S.over, {"P17", "P18"})
    [] e.e \in {"crash", "hang"} -> Blame(S, {"P17", "P18"})
    [] OTHER -> S

----------------------------------------------------------------------------
(* a command-line option *)

OptionStep(S, e) ==
  CASE e.e = "kill" ->
         LET S1 == [S EXCEPT !.sent = @ \cup {e.s}]
         IN BlameIf(S1, S.h.to = 0 \/ e.pid # S.h.to \/ S.h.ask = ""
                        \/ (S.h.ask = "stop" /\ e.s # S.h.stop) \/ (S.h.ask = "reload" /\ e.s # S.h.reload), {"P18"})
    [] e.e = "exit" ->
         LET S1 == BlameIf([S EXCEPT !.over = TRUE], S.h.to # 0 /\ S.h.ask # "" /\ S.sent = {}, {"P18"})
         IN BlameIf(S1, e.pidfile # S.h.to, {"P18"})
    [] e.e \in {"fork", "suspend", "end", "crash", "hang", "killed"} -> Blame(S, {"P18"})
    [] OTHER -> S

----------------------------------------------------------------------------
(* nothing to start: it ends, having started nothing *)

NoneStep(S, e) ==
  CASE e.e = "exit" -> BlameIf([S EXCEPT !.over = TRUE], e.pidfile # S.h.to, {"P27"})
    [] e.e \in {"fork", "listen", "start", "suspend", "end", "crash", "hang", "killed"} -> Blame(S, {"P27"})
    [] OTHER -> S

Lift(S) == IF S.t = {} THEN S ELSE [S EXCEPT !.t = @ \cup S.h.lift]
Step(S0, e) ==
  LET S == [S0 EXCEPT !.t = {}] IN
  Lift(CASE S.h.role = "master" -> MasterStep(S, e)
         [] S.h.role = "worker" -> WorkerStep(S, e)
         [] S.h.role = "none" -> NoneStep(S, e)
         [] OTHER -> OptionStep(S, e))
=============================================================================
