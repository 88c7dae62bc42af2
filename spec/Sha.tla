-------------------------------- MODULE Sha --------------------------------
(* SHA-512/256 of the 64 bytes left||right, on lower case hex strings, and  *)
(* the digest of any message.                                                *)
(* The operators are implemented by Sha.java with the JDK's MessageDigest,   *)
(* so the oracle shares no code with the library under test.                 *)
LOCAL INSTANCE TLC
LOCAL Missing == Assert(FALSE, "Sha.class (the Java override) is not on the class path")
ParentHash(left, right) == Missing
(* v: 512 (SHA-512) or 256 (SHA-512/256); the first `bits` bits of the digest *)
(* of the concatenation of the pieces <<hex string, how often>>.              *)
Digest(v, bits, pieces) == Missing
MessageBytes(hex) == Missing                 \* the number of bytes of a hex string
=============================================================================
