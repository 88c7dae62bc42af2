------------------------------ MODULE SwapImpl ------------------------------
(****************************************************************************)
(* The deletion algorithm of the library (ForestState::Transform,           *)
(* ConvertCollapses, Accumulator::Remove, RamForest::Undo) as swaps of      *)
(* subtrees in an array of rows, against the definition in Accum:           *)
(*   Removed   the array holds the leaves and all node hashes of Delete     *)
(*   Undone    swapping back restores the leaves and all node hashes        *)
(*   Sizes     every position that is touched exists                        *)
(* for every number of leaves up to MaxN and every set of deleted leaves.   *)
(* Nodes are <<row, index>>.  A swap is [from, to, collapse], on its row.   *)
(****************************************************************************)
EXTENDS Accum, Bitwise

CONSTANTS MaxN
HFree(a, b) == <<a, b>>

VARIABLES n, D
vars == <<n, D>>
Init == n \in 1..MaxN /\ D \in (SUBSET (0..(n - 1))) \ {{}}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Swap(f, t, c) == [from |-> f, to |-> t, collapse |-> c]
NoSwap == Swap(0, 0, FALSE)

----------------------------------------------------------------------------
(* ComputeNextRowTargets: parents (in order of discovery) and the targets without sibling. *)
RECURSIVE NextRow(_, _, _)
NextRow(ts, parents, lone) ==
    IF ts = <<>> THEN [parents |-> parents, lone |-> lone]
    ELSE IF Len(ts) > 1 /\ ts[1] % 2 = 0 /\ ts[2] = ts[1] + 1
    THEN NextRow(Tail(Tail(ts)), Append(parents, ts[1] \div 2), lone)
    ELSE LET l == Append(lone, ts[1])
         IN  NextRow(Tail(ts), IF Len(l) % 2 = 0 THEN Append(parents, ts[1] \div 2) ELSE parents, l)

RECURSIVE PairSwaps(_)
PairSwaps(lone) == IF Len(lone) < 2 THEN <<>>
                   ELSE <<Swap(Sib(lone[2]), lone[1], FALSE)>> \o PairSwaps(Tail(Tail(lone)))

RootDest(m, r) == 2 * (m \div 2^(r + 1))           \* where the root of row r is with m leaves

RECURSIVE Rows(_, _, _, _)
Rows(ts, r, nn, next) ==    \* sequence of [swaps, collapse], from the bottom row up
    IF r >= NumRows(nn) \/ ts = <<>> THEN <<>>
    ELSE
    LET atroot  == HasRoot(nn, r) /\ Last(ts) = RowLen(nn, r) - 1
        t       == IF atroot THEN Front(ts) ELSE ts
        root    == HasRoot(nn, r) /\ ~atroot
        remains == Len(t) % 2 = 1
        x       == NextRow(t, <<>>, <<>>)
        parents == IF remains /\ ~root THEN Append(x.parents, Last(x.lone) \div 2) ELSE x.parents
        swaps   == PairSwaps(x.lone) \o (IF remains /\ root THEN <<Swap(RowLen(nn, r) - 1, Last(x.lone), FALSE)>> ELSE <<>>)
        coll    == IF ~remains /\ root THEN Swap(RowLen(nn, r) - 1, RootDest(next, r), TRUE)
                   ELSE IF remains /\ ~root THEN Swap(Sib(Last(x.lone)), RootDest(next, r), TRUE)
                   ELSE NoSwap
    IN  <<[swaps |-> swaps, collapse |-> coll]>>
        \o Rows(SortInts(Range(parents), 2^r * nn + 2), r + 1, nn, next)

(* ConvertCollapses *)
IfDescendant(s, c, diff) ==
    LET a == c.to \div 2^diff
    IN  IF (a = s.from) # (a = s.to) THEN [c EXCEPT !.to = @ ^^ ((s.from ^^ s.to) * 2^diff)] ELSE c
Convert(cs, s, row) == \* (rows from 0)
    [i \in 1..Len(cs) |-> IF i - 1 < row /\ cs[i].collapse THEN IfDescendant(s, cs[i], row - (i - 1)) ELSE cs[i]]
RECURSIVE ConvertAll(_, _, _)
ConvertAll(cs, ss, row) == IF ss = <<>> THEN cs ELSE ConvertAll(Convert(cs, Head(ss), row), Tail(ss), row)
RECURSIVE ConvertRows(_, _, _)
ConvertRows(cs, rows, row) ==
    IF row <= 0 THEN cs
    ELSE LET c1 == ConvertAll(cs, rows[row + 1].swaps, row)
             c2 == IF c1[row + 1].collapse THEN Convert(c1, c1[row + 1], row) ELSE c1
         IN  ConvertRows(c2, rows, row - 1)

Transform(nn, ts) == \* sequence over rows of sequences of swaps
    LET rows == TLCEval(Rows(ts, 0, nn, nn - Len(ts)))
        cs   == TLCEval(ConvertRows([i \in 1..Len(rows) |-> rows[i].collapse], rows, Len(rows) - 1))
    IN  [i \in 1..Len(rows) |->
           rows[i].swaps \o (IF cs[i].collapse /\ cs[i].from # cs[i].to THEN <<cs[i]>> ELSE <<>>)]

----------------------------------------------------------------------------
(* The array of hashes: a sequence of rows. *)
Exchange(row, a, b, len) == \* (indexes from 0)
    [i \in 1..Len(row) |->
        LET k == i - 1 IN
        IF k >= a /\ k < a + len THEN row[b + (k - a) + 1]
        ELSE IF k >= b /\ k < b + len THEN row[a + (k - b) + 1] ELSE row[i]]
SwapTrees(data, r, s) ==
    [q \in 1..Len(data) |->
        IF q - 1 > r THEN data[q] ELSE LET w == 2^(r - (q - 1)) IN TLCEval(Exchange(data[q], s.from * w, s.to * w, w))]
ReHash(data, x) == \* node x
    [data EXCEPT ![x[1] + 1][x[2] + 1] = H(data[x[1]][2 * x[2] + 1], data[x[1]][2 * x[2] + 2])]
Exists(data, x) == x[1] + 1 <= Len(data) /\ x[2] + 1 <= Len(data[x[1] + 1])

(* one row of Accumulator::Remove: swaps, then the dirty nodes are hashed and their parents collected *)
RECURSIVE DoSwaps(_, _, _, _)
DoSwaps(data, r, ss, dirt) ==
    IF ss = <<>> THEN [data |-> data, dirt |-> dirt]
    ELSE DoSwaps(TLCEval(SwapTrees(data, r, Head(ss))), r, Tail(ss),
                 IF Head(ss).collapse THEN dirt ELSE Append(dirt, <<r + 1, Head(ss).to \div 2>>))
RECURSIVE Clean(_, _, _, _)
Clean(nn, data, dirt, next) ==
    IF dirt = <<>> THEN [data |-> data, next |-> next]
    ELSE LET x == Head(dirt)
             p == <<x[1] + 1, x[2] \div 2>>
         IN  Clean(nn, TLCEval(ReHash(data, x)), Tail(dirt),
                   IF (next = <<>> \/ Last(next) # p) /\ ~IsRoot(nn, x[1], x[2]) THEN Append(next, p) ELSE next)
RECURSIVE RemoveRows(_, _, _, _, _)
RemoveRows(nn, data, r, swaps, dirt) ==
    IF r >= NumRows(nn) THEN [data |-> data, dirt |-> dirt]
    ELSE LET a == DoSwaps(data, r, IF r + 1 <= Len(swaps) THEN swaps[r + 1] ELSE <<>>, dirt)
             b == Clean(nn, a.data, a.dirt, <<>>)
         IN  RemoveRows(nn, TLCEval(b.data), r + 1, swaps, b.next)

----------------------------------------------------------------------------
Lv == [i \in 1..n |-> <<i>>]
Before == BuildRows(Lv)
Dels == SortInts(D, n)
Swaps == TLCEval(Transform(n, Dels))
Result == TLCEval(RemoveRows(n, Before, 0, Swaps, <<>>))
After == BuildRows(Delete(Lv, D))

Removed == /\ Result.dirt = <<>>
           /\ \A q \in 1..Len(After) : SubSeq(Result.data[q], 1, Len(After[q])) = After[q]
           /\ {Result.data[1][i] : i \in (n - Cardinality(D) + 1)..n} = {Lv[d + 1] : d \in D}

(* RamForest::Undo: the deleted leaves are put behind the others, the swaps are made backwards on  *)
(* the leaves, then everything above a leaf that moved is hashed again.                            *)
Flat(r, s) == [from |-> s.from * 2^r, to |-> s.to * 2^r, len |-> 2^r]
RECURSIVE FlatAll(_, _)
FlatAll(r, sw) == IF r >= Len(sw) THEN <<>> ELSE [i \in 1..Len(sw[r + 1]) |-> Flat(r, sw[r + 1][i])] \o FlatAll(r + 1, sw)
RECURSIVE Backwards(_, _)
Backwards(row, fs) == IF fs = <<>> THEN row
                      ELSE Backwards(TLCEval(Exchange(row, Last(fs).from, Last(fs).to, Last(fs).len)), Front(fs))
Moved(fs) == UNION {{f.from + i : i \in 0..(f.len - 1)} \cup {f.to + i : i \in 0..(f.len - 1)} : f \in Range(fs)}
Undone ==
    LET fs    == FlatAll(0, Swaps)
        row0  == Backwards(Result.data[1], fs)
        dirty == Moved(fs) \cup {i : i \in (n - Cardinality(D))..(n - 1)}
        clean(r) == {i \in 0..(RowLen(n, r) - 1) : \A d \in dirty : d \div 2^r # i}    \* not hashed again
    IN  /\ row0 = Lv
        /\ \A r \in 1..(Len(Before) - 1) : \A i \in clean(r) :
              /\ r + 1 <= Len(After) /\ i + 1 <= Len(After[r + 1])
              /\ After[r + 1][i + 1] = Before[r + 1][i + 1]

Sizes == \A r \in 1..Len(Swaps) : \A s \in Range(Swaps[r]) :
            /\ s.from < RowLen(n, r - 1) /\ s.to < RowLen(n, r - 1)
            /\ ~s.collapse => Exists(Before, <<r, s.to \div 2>>)
=============================================================================
