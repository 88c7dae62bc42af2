------------------------------- MODULE Serial -------------------------------
(****************************************************************************)
(* The byte format of batch proofs and undo data, on lower case hex strings. *)
(* Numbers of 64 bits are strings of 16 hex digits (TLC integers have 32).   *)
(*                                                                          *)
(*   proof: 4 bytes number of targets | 4 bytes number of hashes |          *)
(*          4 bytes per target | 32 bytes per hash        (big endian)      *)
(*   undo:  4 bytes number of additions | 4 bytes number of deletions |     *)
(*          4 bytes per deleted position | 32 bytes per deleted hash        *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fast

Digits == "0123456789abcdef"
Digit(c) == CHOOSE d \in 0..15 : SubSeq(Digits, d + 1, d + 1) = c
Hex(d) == SubSeq(Digits, d + 1, d + 1)
DigitAt(s, i) == Digit(SubSeq(s, i, i))

RECURSIVE Concat(_, _)
Concat(seq, k) == IF k = 0 THEN "" ELSE Concat(seq, k - 1) \o seq[k]
RECURSIVE ConcatRange(_, _, _)
ConcatRange(seq, lo, hi) ==
    IF lo > hi THEN "" ELSE IF lo = hi THEN seq[lo]
    ELSE LET mid == (lo + hi) \div 2 IN ConcatRange(seq, lo, mid) \o ConcatRange(seq, mid + 1, hi)
ConcatAll(seq) == ConcatRange(seq, 1, Len(seq))

Hex8(n) == \* n < 2^31
    ConcatAll([i \in 1..8 |-> Hex((n \div 16^(IF i = 1 THEN 7 ELSE 8 - i)) % 16)])

Low32(s) == SubSeq(s, 9, 16)          \* what 4 bytes hold of a 16 digit number
High32(s) == SubSeq(s, 1, 8)
Fits32(s) == High32(s) = "00000000"

(* value of 8 hex digits as a pair of 16 bit numbers *)
RECURSIVE Val(_, _, _)
Val(s, lo, hi) == IF lo > hi THEN 0 ELSE Val(s, lo, hi - 1) * 16 + DigitAt(s, hi)
Quads(s) == <<Val(s, 1, 4), Val(s, 5, 8), Val(s, 9, 12), Val(s, 13, 16)>>
RECURSIVE LexLE(_, _, _)
LexLE(a, b, k) == IF k > Len(a) THEN TRUE
                  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLE(a, b, k + 1)
LE64(s, t) == LexLE(Quads(s), Quads(t), 1)

(* A count of 8 hex digits, -1 if it does not fit an int (no input here is that long). *)
Count8(s) == IF DigitAt(s, 1) >= 4 THEN -1 ELSE Val(s, 1, 8)

SerializeProof(targets, hashes) ==
    Hex8(Len(targets)) \o Hex8(Len(hashes))
    \o ConcatAll([i \in 1..Len(targets) |-> Low32(targets[i])]) \o ConcatAll(hashes)

(* numbers of bytes, in arithmetic without a word size; the counts are bounded first *)
ReadableProof(bytes) ==
    /\ Len(bytes) >= 16
    /\ LET nt == Count8(SubSeq(bytes, 1, 8))
           nh == Count8(SubSeq(bytes, 9, 16))
           len == Len(bytes) \div 2
       IN  nt >= 0 /\ nt <= len /\ nh >= 0 /\ nh <= len /\ len = 8 + 4 * nt + 32 * nh
ReadProof(bytes) ==
    LET nt == Count8(SubSeq(bytes, 1, 8))
        nh == Count8(SubSeq(bytes, 9, 16))
        h0 == 16 + 8 * nt
    IN  [t |-> [i \in 1..nt |-> "00000000" \o SubSeq(bytes, 17 + 8 * (i - 1), 16 + 8 * i)],
         h |-> [i \in 1..nh |-> SubSeq(bytes, h0 + 1 + 64 * (i - 1), h0 + 64 * i)]]

SerializeUndo(adds, pos, hashes) ==
    Low32(adds) \o Hex8(Len(pos))
    \o ConcatAll([i \in 1..Len(pos) |-> Low32(pos[i])]) \o ConcatAll(hashes)
ReadableUndo(bytes) ==
    /\ Len(bytes) >= 16
    /\ LET nd == Count8(SubSeq(bytes, 9, 16))
           len == Len(bytes) \div 2
       IN  nd >= 0 /\ nd <= len /\ len = 8 + 36 * nd
ReadUndo(bytes) ==
    LET nd == Count8(SubSeq(bytes, 9, 16))
        h0 == 16 + 8 * nd
    IN  [a |-> "00000000" \o SubSeq(bytes, 1, 8),
         p |-> [i \in 1..nd |-> "00000000" \o SubSeq(bytes, 17 + 8 * (i - 1), 16 + 8 * i)],
         h |-> [i \in 1..nd |-> SubSeq(bytes, h0 + 1 + 64 * (i - 1), h0 + 64 * i)]]

(* s is the ascending arrangement of t *)
SortedVersion(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..(Len(s) - 1) : LE64(s[i], s[i + 1])
    /\ IF Cardinality(Range(t)) = Len(t) THEN Range(s) = Range(t) ELSE
       LET occ(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
       IN  \A x \in Range(t) \cup Range(s) : occ(s, x) = occ(t, x)
=============================================================================
