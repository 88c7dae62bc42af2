------------------------------- MODULE Accum -------------------------------
(****************************************************************************)
(* The utreexo accumulator as a value: geometry of a forest of perfect      *)
(* trees, node hashes, proofs, deletion, and what a pruned accumulator      *)
(* (pollard) has to know, may know, and has to accept.                      *)
(*                                                                          *)
(* Everything is a function of                                              *)
(*   - the sequence of leaves (forest), and                                 *)
(*   - the set of remembered leaves (pollard).                              *)
(* No state of the implementation (swap lists, nieces, position maps, dirty *)
(* lists, recovery trees) appears here.                                     *)
(*                                                                          *)
(* H is the parent hash.  Model checking uses the free (injective) H, trace *)
(* validation uses SHA-512/256 (Sha.tla).                                   *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Fast

CONSTANT H(_, _)

----------------------------------------------------------------------------
(* Geometry.  A node is <<row, index>>, leaves have row 0, indexes start at 0.*)

RECURSIVE RowsFor(_, _)
RowsFor(n, r) == IF 2^r >= n THEN r ELSE RowsFor(n, r + 1)
NumRows(n)    == RowsFor(n, 0)          \* height of the smallest tree that covers n leaves
RowLen(n, r)  == n \div 2^r             \* number of nodes on a row
HasRoot(n, r) == RowLen(n, r) % 2 = 1   \* an odd row ends with a root
IsRoot(n, r, i) == HasRoot(n, r) /\ i = RowLen(n, r) - 1
Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1

(* Positions number the nodes of the smallest perfect tree over n leaves row by row. *)
RowStart(n, r) == LET R == NumRows(n) IN 2^(R + 1) - 2^(R + 1 - r)
Pos(n, r, i)   == RowStart(n, r) + i

RECURSIVE RootNodesFrom(_, _)
RootNodesFrom(n, r) ==
    IF r < 0 THEN <<>>
    ELSE (IF HasRoot(n, r) THEN << <<r, RowLen(n, r) - 1>> >> ELSE <<>>) \o RootNodesFrom(n, r - 1)
RootNodes(n) == RootNodesFrom(n, NumRows(n))    \* tallest tree first

----------------------------------------------------------------------------
(* Node hashes.  rows[r+1][i+1] is the hash of node <<r, i>>.               *)

RECURSIVE RowsUp(_)
RowsUp(row) ==
    IF Len(row) = 0 THEN <<>>
    ELSE <<row>> \o RowsUp(TLCEval([i \in 1..(Len(row) \div 2) |-> H(row[2 * i - 1], row[2 * i])]))
BuildRows(leaves) == TLCEval(RowsUp(leaves))
LeavesOf(rows)    == IF rows = <<>> THEN <<>> ELSE rows[1]
NumLeaves(rows)   == IF rows = <<>> THEN 0 ELSE Len(rows[1])
NodeHash(rows, node) == rows[node[1] + 1][node[2] + 1]

RECURSIVE RootsFrom(_, _)
RootsFrom(rows, k) ==
    IF k = 0 THEN <<>>
    ELSE (IF Len(rows[k]) % 2 = 1 THEN <<rows[k][Len(rows[k])]>> ELSE <<>>) \o RootsFrom(rows, k - 1)
Roots(rows) == RootsFrom(rows, Len(rows))

----------------------------------------------------------------------------
(* Deletion.  On every row, from the bottom up, with deleted subtrees marked *)
(*  - lone deletions (their sibling is not deleted) are paired from left to  *)
(*    right, the sibling of the second one moves to the place of the first;  *)
(*  - a remaining lone deletion is filled with the root of the row if there  *)
(*    is one, otherwise its sibling becomes the root of the row;             *)
(*  - the pairs that are deleted entirely are the deletions of the next row. *)
(* A row is a sequence of blocks (the leaves of the subtrees), <<>> = deleted.*)

Mate(i) == IF i % 2 = 1 THEN i + 1 ELSE i - 1           \* sibling, indexes from 1

RECURSIVE RankIn(_, _, _, _)
RankIn(seq, x, lo, hi) ==       \* position of x in the ascending sequence seq
    LET mid == (lo + hi) \div 2
    IN  IF seq[mid] = x THEN mid
        ELSE IF seq[mid] < x THEN RankIn(seq, x, mid + 1, hi) ELSE RankIn(seq, x, lo, mid - 1)

RECURSIVE DeleteRow(_)
DeleteRow(s) ==
    IF Len(s) = 0 THEN <<>>
    ELSE
    LET m    == Len(s)
        p    == m \div 2
        root == IF m % 2 = 1 THEN s[m] ELSE <<>>
        lone == TLCEval(SelectSeq([i \in 1..(2 * p) |-> i], LAMBDA i : s[i] = <<>> /\ s[Mate(i)] # <<>>))
        k    == Len(lone)
        left == k % 2 = 1                         \* the last lone deletion has no partner
        rank(i) == RankIn(lone, i, 1, k)
        s2   == TLCEval([i \in 1..(2 * p) |->
                  IF s[i] = <<>> /\ s[Mate(i)] # <<>> THEN
                     LET j == rank(i) IN
                     IF j = k /\ left THEN root   \* (<<>> if there is no root)
                     ELSE IF j % 2 = 1 THEN s[Mate(lone[j + 1])] ELSE <<>>
                  ELSE IF s[i] # <<>> /\ s[Mate(i)] = <<>> THEN
                     LET j == rank(Mate(i)) IN
                     IF j = k /\ left THEN (IF root # <<>> THEN s[i] ELSE <<>>)
                     ELSE IF j % 2 = 1 THEN s[i] ELSE <<>>
                  ELSE s[i]])
        newroot == IF left THEN (IF root # <<>> THEN <<>> ELSE s[Mate(lone[k])]) ELSE root
    IN  DeleteRow(TLCEval([i \in 1..p |-> s2[2 * i - 1] \o s2[2 * i]])) \o newroot

(* D: set of deleted positions (from 0) *)
Delete(leaves, D) ==
    IF D = {} THEN leaves
    ELSE TLCEval(DeleteRow(TLCEval([i \in 1..Len(leaves) |-> IF (i - 1) \in D THEN <<>> ELSE <<leaves[i]>>])))

StrictlyAscending(seq) == \A i \in 1..(Len(seq) - 1) : seq[i] < seq[i + 1]
(* dels: the list of positions handed to Modify *)
WellFormedDeletion(n, dels) == StrictlyAscending(dels) /\ \A i \in 1..Len(dels) : dels[i] >= 0 /\ dels[i] < n

Modify(leaves, adds, dels) == Delete(leaves, Range(dels)) \o adds

----------------------------------------------------------------------------
(* Proofs.  For a set T of leaf indexes: the nodes that can be computed from *)
(* the targets upwards, and the canonical proof = the siblings of computed   *)
(* nodes that are not computed themselves.                                   *)

RECURSIVE SplitSort(_)
SplitSort(S) ==
    IF S = {} THEN <<>>
    ELSE LET x  == CHOOSE y \in S : TRUE
             lo == {y \in S : y < x}
             hi == {y \in S : y > x}
         IN  SplitSort(lo) \o <<x>> \o SplitSort(hi)
SortInts(set, m) == \* ascending sequence of a set of integers from 0..m-1
    LET S == TLCEval(set)
    IN  TLCEval(IF Cardinality(S) < 12 THEN SplitSort(S)
                ELSE SelectSeq([i \in 1..m |-> i - 1], LAMBDA x : x \in S))

UpFrom(n, r, C) == {i \div 2 : i \in {j \in C : ~IsRoot(n, r, j)}}

RECURSIVE ProofRows(_, _, _)
ProofRows(n, r, C) ==           \* C: computed nodes on row r
    IF C = {} THEN <<>>
    ELSE LET missing == TLCEval({Sib(i) : i \in {j \in C : ~IsRoot(n, r, j)}} \ C)
             sorted  == SortInts(missing, RowLen(n, r))
         IN  [k \in 1..Len(sorted) |-> <<r, sorted[k]>>] \o ProofRows(n, r + 1, TLCEval(UpFrom(n, r, C)))
ProofNodes(n, T) == TLCEval(ProofRows(n, 0, T))         \* ascending positions

RECURSIVE AncestorPositions(_, _, _)
AncestorPositions(n, r, C) ==   \* positions of C (on row r) and all ancestors
    IF C = {} THEN {}
    ELSE {Pos(n, r, i) : i \in C} \cup AncestorPositions(n, r + 1, TLCEval(UpFrom(n, r, C)))

RECURSIVE SiblingPositions(_, _, _)
SiblingPositions(n, r, C) ==    \* siblings of C and of all ancestors of C
    IF C = {} THEN {}
    ELSE {Pos(n, r, Sib(i)) : i \in {j \in C : ~IsRoot(n, r, j)}}
         \cup SiblingPositions(n, r + 1, TLCEval(UpFrom(n, r, C)))

RootPositions(n) == {Pos(n, x[1], x[2]) : x \in Range(RootNodes(n))}

ProofHashes(rows, nodes) == TLCEval([k \in 1..Len(nodes) |-> NodeHash(rows, nodes[k])])

NoDup(seq) == Cardinality(Range(seq)) = Len(seq)

(* What proving the list of leaf hashes `req' has to yield. *)
IndexesOf(leaves, hs) ==        \* the index of each of a sequence of leaf hashes
    LET at == TLCEval(IF Len(hs) > 8 THEN Index(leaves)
                      ELSE [h \in Range(hs) |-> CHOOSE i \in 1..Len(leaves) : leaves[i] = h])
    IN  TLCEval([k \in 1..Len(hs) |-> at[hs[k]] - 1])
Provable(leaves, req) == NoDup(req) /\ Range(req) \subseteq Range(leaves)
CanonicalProof(rows, req) ==
    LET leaves  == LeavesOf(rows)
        targets == IndexesOf(leaves, req)
    IN  [targets |-> targets,
         hashes  |-> ProofHashes(rows, ProofNodes(Len(leaves), Range(targets)))]

----------------------------------------------------------------------------
(* Stateless verification: what a verifier that knows only the roots does.   *)
(* (Accepts iff the hashes recomputed from the targets and the proof reach   *)
(* the roots.)                                                               *)

RECURSIVE Recompute(_, _, _, _, _, _)
Recompute(n, roots, rootnodes, r, known, proof) ==
    \* known: function from computed indexes on row r to hashes, proof: remaining proof hashes
    IF DOMAIN known = {} THEN proof = <<>>
    ELSE
    LET C       == DOMAIN known
        inner   == {i \in C : ~IsRoot(n, r, i)}
        missing == SortInts({Sib(i) : i \in inner} \ C, RowLen(n, r))
        enough  == Len(proof) >= Len(missing)
        all     == [i \in inner \cup Range(missing) |->
                      IF i \in C THEN known[i] ELSE proof[RankIn(missing, i, 1, Len(missing))]]
        rootok  == \A i \in C \ inner :
                      known[i] = roots[CHOOSE k \in 1..Len(rootnodes) : rootnodes[k] = <<r, i>>]
    IN  /\ enough
        /\ rootok
        /\ Recompute(n, roots, rootnodes, r + 1,
                     TLCEval([j \in {i \div 2 : i \in inner} |-> H(all[2 * j], all[2 * j + 1])]),
                     SubSeq(proof, Len(missing) + 1, Len(proof)))

(* targets: ascending sequence of positions, thashes: their hashes, proof: hashes *)
StatelessVerify(n, roots, targets, thashes, proof) ==
    /\ Len(thashes) = Len(targets)
    /\ WellFormedDeletion(n, targets)
    /\ Recompute(n, roots, RootNodes(n), 0,
                 [i \in Range(targets) |-> thashes[RankIn(targets, i, 1, Len(targets))]], proof)

----------------------------------------------------------------------------
(* A pollard remembers a set of leaves (their indexes: R).  It must know the *)
(* roots and the siblings along the paths of the remembered leaves, it may   *)
(* also know these leaves and their ancestors, and nothing else.             *)

MustKnow(n, R) == RootPositions(n) \cup SiblingPositions(n, 0, R)
MayKnow(n, R)  == MustKnow(n, R) \cup AncestorPositions(n, 0, R)

(* Embedding of the supplied proof hashes into the canonical proof.          *)
(* Result: the canonical nodes that were not supplied, or "no".              *)
RECURSIVE Match(_, _, _, _, _)
Match(hashes, k, proof, j, miss) ==     \* miss: indexes of the canonical nodes that were not supplied
    IF k = 0 THEN [ok |-> j = 0, miss |-> miss]
    ELSE IF j > 0 /\ proof[j] = hashes[k] THEN Match(hashes, k - 1, proof, j - 1, miss)
    ELSE Match(hashes, k - 1, proof, j, Append(miss, k))
Omitted(nodes, hashes, proof) ==
    IF proof = hashes THEN [ok |-> TRUE, miss |-> {}]
    ELSE LET m == TLCEval(Match(hashes, Len(hashes), proof, Len(proof), <<>>))
         IN  [ok |-> m.ok, miss |-> {nodes[m.miss[i]] : i \in 1..Len(m.miss)}]

(* Verdict on (targets, thashes, proof): "accept", "reject" or "either".     *)
(* Omitted hashes have to be tolerated if the pollard must know them, and    *)
(* must not be tolerated if it cannot know them.                             *)
Verdict(rows, R, targets, thashes, proof) ==
    LET n   == NumLeaves(rows)
        T   == Range(targets)
    IN  IF Len(thashes) # Len(targets) \/ ~NoDup(targets) \/ (\E t \in T : t < 0 \/ t >= n) THEN "reject"
        ELSE IF T = {} THEN IF Len(proof) = 0 THEN "accept" ELSE "reject"
        ELSE LET sorted == SortInts(T, n)
             IN  IF \E k \in 1..Len(sorted) : rows[1][sorted[k] + 1] # thashes[k] THEN "reject"
                 ELSE LET nodes  == ProofNodes(n, T)
                          hashes == ProofHashes(rows, nodes)
                          om     == TLCEval(Omitted(nodes, hashes, proof))
                          miss   == TLCEval({Pos(n, x[1], x[2]) : x \in om.miss})
                      IN  IF ~om.ok THEN "reject"
                          ELSE IF miss = {} THEN "accept"
                          ELSE IF miss \subseteq MustKnow(n, R) THEN "accept"
                          ELSE IF ~(miss \subseteq MayKnow(n, R)) THEN "reject"
                          ELSE "either"

(* The sanity check of a batch proof. *)
Sane(n, targets, nhashes) ==
    LET T == Range(targets)
    IN  /\ NoDup(targets)
        /\ \A t \in T : t >= 0 /\ t < n
        /\ nhashes <= Len(ProofNodes(n, T))
=============================================================================
