------------------------------ MODULE ConfigMC ------------------------------
(* How the listeners come about as it is built: two arrays of limited size   *)
(* are read from the configuration, a table of limited size is filled from   *)
(* them one port at a time, then everything in the table is opened.          *)
(* Every configuration that fits is one behaviour; all are replayed.         *)
EXTENDS Config

CONSTANTS Slots,   \* listeners there is room for
          Lists,   \* entries read of a list of ports
          Flaw     \* "none", or how it goes wrong: "cap", "clear", "role", "count"

VARIABLES conf, table, step, op
vars == <<conf, table, step, op>>

Modes == {"c", "s", "m"}
Base == [mode |-> "s", local |-> 1, tunnel |-> 2, http |-> <<>>, https |-> <<>>]
Own(m) == IF m = "m" THEN 0 ELSE 1
ListOf(from, n) == [i \in 1..n |-> from + i]
Confs == {[Base EXCEPT !.mode = m, !.http = ListOf(10, h), !.https = ListOf(20, t)] :
            m \in Modes, h \in 0..Slots, t \in 0..Slots}
Fits(c) == Own(c.mode) + Len(c.http) + Len(c.https) \in 1..Slots

Init == /\ conf \in {c \in Confs : Fits(c)}
        /\ table = <<>> /\ step = <<"own", 0>> /\ op = <<conf.mode, Len(conf.http), Len(conf.https)>>

Read(ps) == LET n == IF Flaw = "count" /\ Len(ps) > 1 THEN Len(ps) - 1 ELSE Len(ps) IN SubSeq(ps, 1, IF n > Lists THEN Lists ELSE n)
Add(p, svc, tls) ==
  table' = IF Len(table) >= (IF Flaw = "cap" THEN Slots - 1 ELSE Slots) THEN table ELSE Append(table, [p |-> p, svc |-> svc, tls |-> tls])

Own_ ==
  /\ step[1] = "own"
  /\ CASE conf.mode = "c" -> Add(conf.local, "local", FALSE)
       [] conf.mode = "s" \/ Flaw = "role" -> Add(conf.tunnel, "tun", TRUE)
       [] OTHER -> table' = table
  /\ step' = <<"http", 1>>
Http_ ==
  /\ step[1] = "http"
  /\ LET ps == Read(conf.http) IN
     IF step[2] > Len(ps) THEN table' = table /\ step' = <<"https", 1>>
     ELSE Add(ps[step[2]], "http", FALSE) /\ step' = <<"http", step[2] + 1>>
Https_ ==
  /\ step[1] = "https"
  /\ LET ps == Read(conf.https) IN
     IF step[2] > Len(ps) THEN table' = table /\ step' = <<"open", 0>>
     ELSE Add(ps[step[2]], IF conf.mode = "m" THEN "shared" ELSE "https", ~ (Flaw = "clear" /\ step[2] > 1)) /\ step' = <<"https", step[2] + 1>>

Next == (Own_ \/ Http_ \/ Https_) /\ UNCHANGED <<conf, op>>
Spec == Init /\ [][Next]_vars

\* what is opened is what was called for
Called == step[1] = "open" =>
  /\ {table[i].p : i \in 1..Len(table)} = Ports(conf)
  /\ \A i \in 1..Len(table) : table[i].svc = Service(conf, table[i].p) /\ table[i].tls = Encrypted(table[i].svc)
Never == \A i \in 1..Len(table) : conf.mode # "c" /\ Tunnels(table[i].svc) => table[i].tls
=============================================================================
