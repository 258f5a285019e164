-------------------------------- MODULE Auth --------------------------------
(* The 36-byte header that opens a tunnel connection.                       *)
EXTENDS Bytes

HeaderLen == 36
Magic == <<160, 1, 190, 239>>

\* The key presented: the text that starts after the magic number, up to its
\* first zero byte (at most the 32 bytes of the key and secret fields).
PresentedKey(h) == ZeroTerminated(SubSeq(h, 5, HeaderLen))

\* keys: the set of configured (non-empty) keys
AuthOK(h, keys) ==
  /\ IsPrefixOf(Magic, h)
  /\ \E k \in keys : k # <<>> /\ Occurs(k, PresentedKey(h))

\* The header the local role has to send for its configured key.
HeaderFor(key) == Magic \o Padded(key, 16) \o Padded(<<>>, 16)
=============================================================================
