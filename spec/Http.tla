-------------------------------- MODULE Http --------------------------------
(* What a web request is to be answered with.                               *)
(*                                                                          *)
(* A request, as the sender means it:                                       *)
(*   end    number of bytes of the connection up to the request's last one  *)
(*   head   the same up to the end of its header fields                     *)
(*   ok     it is well formed and within the limits                         *)
(*   meth   "GET", "POST" or "OTHER"                                        *)
(*   api    its target is the echo service                                  *)
(*   esc    its target contains a parent-directory segment                  *)
(*   path   the file name below the document root the target stands for     *)
(*   keep   it asks for the connection to be kept                           *)
(*   blen   length of its body, body the name of the body's contents        *)
(*   id     requests with the same id are meant to be identical             *)
(* fs is a function from path names to [kind, size].                        *)
EXTENDS Integers, Sequences, TLC

FileOf(fs, path) == IF path \in DOMAIN fs THEN fs[path] ELSE [kind |-> "none", size |-> 0]

\* "close": refused: the connection is closed, or an error status is sent;
\* "text":  success with some text made up by the server;
\* "exact": success with exactly len bytes, taken from stream src;
\* "error": an error status, and no content of any file;
\* "maybe": refused, or answered like "exact": a target that goes up and does
\*          not leave the document root.
Answer(fs, r) ==
  LET no == [k |-> "close", len |-> 0, src |-> ""]
      err == [k |-> "error", len |-> 0, src |-> ""]
      f == FileOf(fs, r.path)
  IN CASE ~ r.ok -> no
       [] r.ok /\ r.api /\ r.meth = "GET" -> [k |-> "text", len |-> 0, src |-> ""]
       [] r.ok /\ r.api /\ r.meth = "POST" -> [k |-> "exact", len |-> r.blen, src |-> r.body]
       [] r.ok /\ (~ r.api \/ r.meth = "OTHER") /\ r.meth # "GET" -> no
       [] r.ok /\ ~ r.api /\ r.meth = "GET" /\ r.esc ->
            IF f.kind = "file" THEN [k |-> "maybe", len |-> f.size, src |-> f.src] ELSE no
       [] r.ok /\ ~ r.api /\ r.meth = "GET" /\ ~ r.esc ->
            IF f.kind = "file" THEN [k |-> "exact", len |-> f.size, src |-> f.src] ELSE err

SuccessStatus(s) == s \in 200..299
ErrorStatus(s) == s \in 400..599

\* what the last segment of a path name ends with, from its last dot on
RECURSIVE EndingFrom(_, _)
EndingFrom(path, i) ==
  IF i = 0 THEN "" ELSE LET ch == SubSeq(path, i, i) IN
  IF ch = "/" THEN "" ELSE IF ch = "." THEN SubSeq(path, i, Len(path)) ELSE EndingFrom(path, i - 1)
MediaTypes ==
  (".html" :> "text/html") @@ (".htm" :> "text/html") @@ (".css" :> "text/css") @@ (".txt" :> "text/plain") @@
  (".js" :> "application/x-javascript") @@ (".json" :> "application/json") @@ (".m3u8" :> "application/x-mpegurl") @@
  (".png" :> "image/png") @@ (".jpg" :> "image/jpeg") @@ (".jpeg" :> "image/jpeg") @@ (".gif" :> "image/gif") @@ (".ico" :> "image/x-icon") @@
  (".mp3" :> "audio/mpeg") @@ (".ts" :> "video/mp2t")
MediaType(path) == LET x == EndingFrom(path, Len(path)) IN IF x \in DOMAIN MediaTypes THEN MediaTypes[x] ELSE "text/plain"

\* number of requests completely received when n bytes have arrived
Complete(reqs, n) == LET s == {i \in 1..Len(reqs) : reqs[i].end <= n}
                     IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
=============================================================================
