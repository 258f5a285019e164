------------------------------- MODULE Config -------------------------------
(* What a configuration calls for: c.mode is "c" (local role), "s" (server)  *)
(* or "m" (server whose https ports serve tunnels too); c.local and c.tunnel *)
(* are ports, c.http and c.https lists of ports.                             *)
EXTENDS Integers, Sequences, FiniteSets

Listed(ps, svc) == [i \in 1..Len(ps) |-> [p |-> ps[i], svc |-> svc]]

Services(c) ==
  (CASE c.mode = "c" -> <<[p |-> c.local, svc |-> "local"]>>
     [] c.mode = "s" -> <<[p |-> c.tunnel, svc |-> "tun"]>>
     [] OTHER -> <<>>)
  \o Listed(c.http, "http")
  \o Listed(c.https, IF c.mode = "m" THEN "shared" ELSE "https")

Ports(c) == LET l == Services(c) IN {l[i].p : i \in 1..Len(l)}
Service(c, p) == LET l == Services(c) IN l[CHOOSE i \in 1..Len(l) : l[i].p = p].svc
\* services that begin with a TLS handshake, and those that reach a tunnel
Encrypted(svc) == svc \in {"tun", "https", "shared"}
Tunnels(svc) == svc \in {"tun", "shared"}
=============================================================================
