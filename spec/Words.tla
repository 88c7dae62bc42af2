------------------------------- MODULE Words -------------------------------
(****************************************************************************)
(* Geometry of forests of any size.  Numbers are words: sequences of bits,  *)
(* most significant first, without leading zeros (<<>> is 0), so that leaf  *)
(* counts up to 2^62 do not meet the 32 bit integers of TLC.                *)
(*                                                                          *)
(* A node is <<row, index>> (index a word).  In a forest of R rows its      *)
(* position is written with R + 1 bits: a one for every row below it, a     *)
(* zero, and the index in R - row bits.  WordsMC checks this module against *)
(* the integer definitions of Accum.                                        *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

WZeros(k) == [i \in 1..k |-> 0]
WOnes(k)  == [i \in 1..k |-> 1]
RECURSIVE Strip(_)
Strip(w) == IF w = <<>> THEN <<>> ELSE IF w[1] = 1 THEN w ELSE Strip(Tail(w))
Pad(w, k) == WZeros(k - Len(w)) \o w                    \* Len(w) <= k
IsWord(w) == w = <<>> \/ w[1] = 1
Low(w, k)  == SubSeq(w, Len(w) - k + 1, Len(w))         \* the last k bits of a padded word
Shr(w, k)  == SubSeq(w, 1, Len(w) - k)                  \* floor(w / 2^k)
Shl(w, k)  == IF w = <<>> THEN <<>> ELSE w \o WZeros(k)
Bit(w, k)  == IF k < Len(w) THEN w[Len(w) - k] ELSE 0
LastBit(w) == Bit(w, 0)

RECURSIVE Lex(_, _, _)
Lex(a, b, k) == IF k > Len(a) THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Lex(a, b, k + 1)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b, 1))

RECURSIVE IncBits(_)
IncBits(w) == IF w = <<>> THEN <<1>>
              ELSE IF w[Len(w)] = 0 THEN SubSeq(w, 1, Len(w) - 1) \o <<1>>
              ELSE IncBits(SubSeq(w, 1, Len(w) - 1)) \o <<0>>
Inc(w) == IncBits(w)                                    \* w + 1
RECURSIVE DecBits(_)
DecBits(w) == IF w[Len(w)] = 1 THEN SubSeq(w, 1, Len(w) - 1) \o <<0>>
              ELSE DecBits(SubSeq(w, 1, Len(w) - 1)) \o <<1>>
Dec(w) == Strip(DecBits(w))                             \* w - 1, w > 0

FlipLast(w) == IF w = <<>> THEN <<1>> ELSE Strip(SubSeq(w, 1, Len(w) - 1) \o <<1 - w[Len(w)]>>)

RECURSIVE WInsert(_, _)
WInsert(seq, x) == IF seq = <<>> THEN <<x>>
                   ELSE IF Less(x, seq[1]) THEN <<x>> \o seq ELSE <<seq[1]>> \o WInsert(Tail(seq), x)
RECURSIVE WSort(_)
WSort(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN TLCEval(WInsert(WSort(S \ {x}), x))

----------------------------------------------------------------------------
(* n: number of leaves *)
WRows(n) == IF n = <<>> THEN 0
            ELSE IF \A i \in 2..Len(n) : n[i] = 0 THEN Len(n) - 1 ELSE Len(n)
WRowLen(n, r)  == IF r >= Len(n) THEN <<>> ELSE Shr(n, r)
WHasRoot(n, r) == Bit(n, r) = 1
WRootIndex(n, r) == Strip(SubSeq(n, 1, Len(n) - r - 1) \o <<0>>)      \* an odd row ends with a root
WIsRoot(n, x)  == WHasRoot(n, x[1]) /\ x[2] = WRootIndex(n, x[1])
WIsNode(n, x)  == x[1] >= 0 /\ x[1] <= WRows(n) /\ Less(x[2], WRowLen(n, x[1]))

RECURSIVE WRootNodesFrom(_, _)
WRootNodesFrom(n, r) == IF r < 0 THEN <<>>
    ELSE (IF WHasRoot(n, r) THEN << <<r, WRootIndex(n, r)>> >> ELSE <<>>) \o WRootNodesFrom(n, r - 1)
WRootNodes(n) == WRootNodesFrom(n, Len(n) - 1)          \* tallest tree first

WParent(x) == <<x[1] + 1, IF x[2] = <<>> THEN <<>> ELSE Shr(x[2], 1)>>
WSib(x)    == <<x[1], FlipLast(x[2])>>
WChild(x, b) == <<x[1] - 1, Strip(x[2] \o <<b>>)>>
RECURSIVE WAncestor(_, _)
WAncestor(x, k) == IF k = 0 THEN x ELSE WAncestor(WParent(x), k - 1)
RECURSIVE WLeftDescendant(_, _)
WLeftDescendant(x, k) == IF k = 0 THEN x ELSE WLeftDescendant(WChild(x, 0), k - 1)

(* Positions in a forest of R rows. *)
WPosR(R, x) == Strip(WOnes(x[1]) \o <<0>> \o Pad(x[2], R - x[1]))
WPos(n, x)  == WPosR(WRows(n), x)
RECURSIVE LeadingOnes(_)
LeadingOnes(w) == IF w = <<>> \/ w[1] = 0 THEN 0 ELSE 1 + LeadingOnes(Tail(w))
WNodeAt(n, pos) ==      \* pos < 2^(R+1) - 1
    LET p == Pad(pos, WRows(n) + 1)
        r == LeadingOnes(p)
    IN  <<r, Strip(SubSeq(p, r + 2, Len(p)))>>
WIsPosition(n, pos) == Len(pos) <= WRows(n) + 1 /\ pos # WOnes(WRows(n) + 1)

RECURSIVE WRootRow(_, _)
WRootRow(n, x) == IF WIsRoot(n, x) THEN x[1] ELSE WRootRow(n, WParent(x))
WTree(n, x) == Cardinality({k \in (WRootRow(n, x) + 1)..Len(n) : WHasRoot(n, k)})    \* number of taller trees

----------------------------------------------------------------------------
(* Proofs.  C: a set of nodes of one row. *)
WInner(n, C) == {x \in C : ~WIsRoot(n, x)}
WUp(n, C)    == TLCEval({WParent(x) : x \in WInner(n, C)})
WMissing(n, C) == TLCEval({WSib(x) : x \in WInner(n, C)} \ C)
WOrdered(r, C) == LET s == WSort({x[2] : x \in C}) IN [k \in 1..Len(s) |-> <<r, s[k]>>]
RECURSIVE WProofRows(_, _, _)
WProofRows(n, r, C) == IF C = {} THEN <<>> ELSE WOrdered(r, WMissing(n, C)) \o WProofRows(n, r + 1, WUp(n, C))
RECURSIVE WComputedRows(_, _, _)
WComputedRows(n, r, C) == IF C = {} THEN <<>> ELSE WOrdered(r, C) \o WComputedRows(n, r + 1, WUp(n, C))
WLeaf(t) == <<0, t>>
WProofNodes(n, T)    == TLCEval(WProofRows(n, 0, {WLeaf(t) : t \in T}))     \* T: set of leaf indexes
WComputedNodes(n, T) == TLCEval(WComputedRows(n, 0, {WLeaf(t) : t \in T}))

WAscending(seq) == \A i \in 1..(Len(seq) - 1) : Less(seq[i], seq[i + 1])
WWellFormed(n, targets) == WAscending(targets) /\ \A i \in 1..Len(targets) : Less(targets[i], n)
WSane(n, targets, nhashes) ==
    LET T == {targets[i] : i \in 1..Len(targets)}
    IN  /\ Cardinality(T) = Len(targets)
        /\ \A t \in T : Less(t, n)
        /\ nhashes <= Len(WProofNodes(n, T))
=============================================================================
