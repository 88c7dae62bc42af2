------------------------------- MODULE Hasher -------------------------------
(* What the hash function of the library is: an object that a message is     *)
(* written into, piece by piece, and that gives the digest of the message.   *)
(*                                                                           *)
(* A message is a sequence of pieces <<hex string, how often>>: the digest   *)
(* depends on nothing but their concatenation.                               *)
EXTENDS Sha, Integers, Sequences

HashNew(v)          == [v |-> v, msg |-> <<>>, done |-> FALSE]      \* v: 512 (SHA-512) or 256 (SHA-512/256)
HashWrite(h, x, n)  == [h EXCEPT !.msg = IF n = 0 \/ x = "" THEN @ ELSE Append(@, <<x, n>>)]
HashReset(h)        == HashNew(h.v)                                 \* like new, whatever happened before
HashFinish(h)       == [h EXCEPT !.done = TRUE]                     \* only Reset is meaningful from here on

RECURSIVE Bytes(_)
Bytes(msg) == IF msg = <<>> THEN 0 ELSE MessageBytes(Head(msg)[1]) * Head(msg)[2] + Bytes(Tail(msg))
HashSize(h) == Bytes(h.msg)
HashValue(h, bits) == Digest(h.v, bits, h.msg)                      \* the first bits / 8 bytes
=============================================================================
