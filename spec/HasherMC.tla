------------------------------ MODULE HasherMC ------------------------------
(* The block structure of SHA-512, and why pieces do not matter.             *)
(*                                                                           *)
(* The digest of a message is defined by the blocks of the padded message    *)
(* (FIPS 180-4, 5.1.2): one bit, zeros, and the length in the last bytes.     *)
(* The implementation keeps a buffer of one block and the number of bytes    *)
(* that were written, compresses a block when the buffer is full, and        *)
(* compresses full blocks of a piece without copying them.  The compression  *)
(* function is not interpreted: what counts is which blocks it was given.    *)
(* (B: bytes of a block, 128 in SHA-512; L: bytes of the length, 16.)         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS B, L, MaxLen, MaxPiece

VARIABLES msg,      \* what was written
          blocks,   \* what was compressed
          buf,      \* the buffer, with whatever old contents
          bytes,    \* how many bytes were written
          done
vars == <<msg, blocks, buf, bytes, done>>

Min(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}
Rep(x, k) == [i \in 1..k |-> x]
Len16(n)  == [i \in 1..L |-> <<"length", i, n>>]
Zero == <<"zero">>
One  == <<"one">>

(* The standard: the least number of zeros that fills the last block.        *)
Zeros(n) == CHOOSE k \in 0..(B - 1) : (n + 1 + k + L) % B = 0
Padded(m) == m \o <<One>> \o Rep(Zero, Zeros(Len(m))) \o Len16(Len(m))
Split(m) == [i \in 1..(Len(m) \div B) |-> SubSeq(m, (i - 1) * B + 1, i * B)]

(* The implementation (CSHA512::Write, Finalize).                             *)
Store(s, off, part) == [i \in 1..B |-> IF i > off /\ i <= off + Len(part) THEN part[i - off] ELSE s[i]]
RECURSIVE Whole(_)
Whole(s) == IF Len(s[4]) < B THEN s
            ELSE Whole(<<Append(s[1], SubSeq(s[4], 1, B)), s[2], s[3] + B, SubSeq(s[4], B + 1, Len(s[4]))>>)
WriteTo(s, data) ==             \* s: blocks, buffer, bytes
    LET used == s[3] % B
        fill == used # 0 /\ used + Len(data) >= B
        full == Store(s[2], used, SubSeq(data, 1, B - used))
        s1 == IF fill THEN <<Append(s[1], full), full, s[3] + B - used, SubSeq(data, B - used + 1, Len(data))>>
              ELSE <<s[1], s[2], s[3], data>>
        s2 == Whole(s1)
    IN  <<s2[1], Store(s2[2], IF fill THEN 0 ELSE used, s2[4]), s2[3] + Len(s2[4])>>

Init == msg = <<>> /\ blocks = <<>> /\ buf = Rep(Zero, B) /\ bytes = 0 /\ done = FALSE
Write(k) ==
    LET data == [i \in 1..k |-> <<"byte", Len(msg) + i>>]
        s == WriteTo(<<blocks, buf, bytes>>, data)
    IN  /\ ~done /\ Len(msg) + k <= MaxLen
        /\ msg' = msg \o data /\ blocks' = s[1] /\ buf' = s[2] /\ bytes' = s[3] /\ done' = done
Finalize ==
    LET pad == <<One>> \o Rep(Zero, (2 * B - L - 1 - (bytes % B)) % B)
        s1 == WriteTo(<<blocks, buf, bytes>>, pad)
        s == WriteTo(s1, Len16(bytes))
    IN  /\ ~done /\ done' = TRUE
        /\ msg' = msg /\ blocks' = s[1] /\ buf' = s[2] /\ bytes' = s[3]
Reset == msg' = <<>> /\ blocks' = <<>> /\ buf' = buf /\ bytes' = 0 /\ done' = FALSE
Next == (\E k \in 0..MaxPiece : Write(k)) \/ Finalize \/ Reset

Spec == Init /\ [][Next]_vars

NothingLost == ~done => /\ bytes = Len(msg)
                        /\ Len(blocks) = bytes \div B
                        /\ LET all == [i \in 1..bytes |-> IF i <= Len(blocks) * B
                                          THEN blocks[((i - 1) \div B) + 1][((i - 1) % B) + 1] ELSE buf[((i - 1) % B) + 1]]
                           IN  all = msg
Standard == done => blocks = Split(Padded(msg))
=============================================================================
