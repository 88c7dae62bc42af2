------------------------------- MODULE Sparse -------------------------------
(****************************************************************************)
(* Pollards of any size (up to 2^62 leaves): the leaves are not enumerated, *)
(* the state has the leaf count, the roots, and the hashes of the nodes     *)
(* that became known from accepted proofs and from additions.               *)
(*  big[p] = [n, roots, know, rem]                                          *)
(*    n: word; roots: hashes, tallest tree first                            *)
(*    know: node -> hash      rem: indexes (words) of the remembered leaves *)
(****************************************************************************)
EXTENDS Words
CONSTANT H(_, _)

WRange(seq) == {seq[i] : i \in 1..Len(seq)}
WNoDup(seq) == Cardinality(WRange(seq)) = Len(seq)
Join(f, g) == TLCEval(f @@ g)

RootKnowledge(n, roots) == LET x == WRootNodes(n) IN
    TLCEval([y \in WRange(x) |-> roots[CHOOSE k \in 1..Len(x) : x[k] = y]])

BigRestore(n, roots) == [n |-> n, roots |-> roots, know |-> RootKnowledge(n, roots), rem |-> {}]

(* Hashes from the targets up to the roots; all: known hashes of all rows so far. *)
RECURSIVE Climb(_, _, _, _)
Climb(n, rootknow, C, all) ==
    IF C = {} THEN [ok |-> TRUE, know |-> all]
    ELSE LET inner == WInner(n, C)
             rootok == \A x \in C \ inner : all[x] = rootknow[x]
             up    == WUp(n, C)
             new   == TLCEval([x \in up |-> H(all[WChild(x, 0)], all[WChild(x, 1)])])
         IN  IF rootok THEN Climb(n, rootknow, up, Join(new, all)) ELSE [ok |-> FALSE, know |-> all]

(* The hashes of the canonical proof: supplied, or known already.  Known hashes may be left out. *)
RECURSIVE Fill(_, _, _, _, _)
Fill(nodes, k, know, proof, acc) ==     \* acc: [miss, hash]; from the last node to the first
    IF k = 0 THEN [ok |-> proof = <<>>, miss |-> acc.miss, hash |-> acc.hash]
    ELSE LET x == nodes[k]
             j == Len(proof)
         IN  IF x \in DOMAIN know
             THEN IF j > 0 /\ proof[j] = know[x]
                  THEN Fill(nodes, k - 1, know, SubSeq(proof, 1, j - 1), [acc EXCEPT !.hash = (x :> know[x]) @@ @])
                  ELSE Fill(nodes, k - 1, know, proof, [miss |-> acc.miss \cup {x}, hash |-> (x :> know[x]) @@ acc.hash])
             ELSE IF j = 0 THEN [ok |-> FALSE, miss |-> {}, hash |-> <<>>]
             ELSE Fill(nodes, k - 1, know, SubSeq(proof, 1, j - 1), [acc EXCEPT !.hash = (x :> proof[j]) @@ @])

RECURSIVE PathNodes(_, _)
PathNodes(n, C) == IF C = {} THEN {} ELSE C \cup PathNodes(n, WUp(n, C))
RemNodes(b) == {WLeaf(t) : t \in b.rem}
RECURSIVE PathSiblings(_, _)
PathSiblings(n, C) == IF C = {} THEN {} ELSE {WSib(x) : x \in WInner(n, C)} \cup PathSiblings(n, WUp(n, C))
BigMust(b) == WRange(WRootNodes(b.n)) \cup PathSiblings(b.n, RemNodes(b))
BigMay(b)  == BigMust(b) \cup PathNodes(b.n, RemNodes(b))

(* [v, know]: the verdict on a verification, and what is known if it succeeds *)
BigVerdict(b, targets, thashes, proof) ==
    LET no == [v |-> "reject", know |-> <<>>]
    IN  IF Len(thashes) # Len(targets) \/ ~WSane(b.n, targets, Len(proof)) THEN no
        ELSE IF targets = <<>> THEN [v |-> "accept", know |-> b.know]
        ELSE LET T     == WRange(targets)
                 sorted == WSort(T)
                 nodes == WProofNodes(b.n, T)
                 f     == TLCEval(Fill(nodes, Len(nodes), b.know, proof, [miss |-> {}, hash |-> <<>>]))
             IN  IF ~f.ok THEN no
                 ELSE LET leafh == TLCEval([x \in {WLeaf(t) : t \in T} |->
                                        thashes[CHOOSE k \in 1..Len(sorted) : sorted[k] = x[2]]])
                          c == TLCEval(Climb(b.n, RootKnowledge(b.n, b.roots), DOMAIN leafh, Join(leafh, f.hash)))
                      IN  IF ~c.ok THEN no
                          ELSE [v |-> IF f.miss \subseteq BigMust(b) THEN "accept"
                                      ELSE IF ~(f.miss \subseteq BigMay(b)) THEN "reject" ELSE "either",
                                know |-> Join(c.know, b.know)]
BigVerified(b, targets, know) == [b EXCEPT !.know = know, !.rem = @ \cup WRange(targets)]

RECURSIVE MergeUp(_, _, _, _)
MergeUp(n, r, roots, know) ==   \* the last root is the node of row r that was added to a forest of n leaves
    IF WHasRoot(n, r)
    THEN LET k == Len(roots)
             h == H(roots[k - 1], roots[k])
         IN  MergeUp(n, r + 1, SubSeq(roots, 1, k - 2) \o <<h>>,
                     (<<r + 1, WRowLen(n, r + 1)>> :> h) @@ know)
    ELSE [roots |-> roots, know |-> know]
BigAdd(b, h, remember) ==
    LET m == MergeUp(b.n, 0, Append(b.roots, h), (WLeaf(b.n) :> h) @@ b.know)
    IN  [n |-> Inc(b.n), roots |-> m.roots, know |-> TLCEval(m.know),
         rem |-> IF remember THEN b.rem \cup {b.n} ELSE b.rem]
RECURSIVE BigAddAll(_, _)
BigAddAll(b, adds) == IF adds = <<>> THEN b ELSE BigAddAll(BigAdd(b, adds[1][1], adds[1][2]), Tail(adds))

BigRemHashes(b) == {b.know[x] : x \in RemNodes(b)}
BigProvable(b, req) == WNoDup(req) /\ WRange(req) \subseteq BigRemHashes(b)
BigProof(b, req) ==
    LET t == TLCEval([k \in 1..Len(req) |-> CHOOSE i \in b.rem : b.know[WLeaf(i)] = req[k]])
        nodes == WProofNodes(b.n, WRange(t))
    IN  [targets |-> t, hashes |-> [k \in 1..Len(nodes) |-> b.know[nodes[k]]]]
(* Deletion of remembered leaves, row by row as in Accum!DeleteRow, on the nodes that are affected. *)
(* mv: place -> the node that moves there; newroot: row -> the node that becomes the root of the row *)
RECURSIVE DelRows(_, _, _, _, _)
DelRows(n, r, D, mv, newroot) ==
    LET hasroot == WHasRoot(n, r)
        rt    == IF hasroot THEN <<r, WRootIndex(n, r)>> ELSE <<r, <<>> >>
        alive == hasroot /\ rt \notin D
        D1    == IF hasroot THEN D \ {rt} ELSE D
        lone  == TLCEval(WOrdered(r, {x \in D1 : WSib(x) \notin D1}))
        k     == Len(lone)
        left  == k % 2 = 1
        mv1   == TLCEval([x \in {lone[j] : j \in {i \in 1..k : i % 2 = 1 /\ i < k}} |->
                    WSib(lone[1 + CHOOSE j \in 1..k : lone[j] = x])]
                 @@ (IF left /\ alive THEN lone[k] :> rt ELSE <<>>))
        root1 == IF left THEN IF alive THEN <<>> ELSE (r :> WSib(lone[k]))
                 ELSE IF alive THEN (r :> rt) ELSE <<>>
        D2    == TLCEval({WParent(x) : x \in {y \in D1 : WSib(y) \in D1}}
                    \cup {WParent(lone[j]) : j \in {i \in 1..k : i % 2 = 0}}
                    \cup (IF left /\ ~alive THEN {WParent(lone[k])} ELSE {}))
    IN  IF r > Len(n) THEN [mv |-> mv, root |-> newroot]
        ELSE DelRows(n, r + 1, D2, mv1 @@ mv, root1 @@ newroot)

RECURSIVE AllAncestors(_, _)
AllAncestors(n, C) == IF C = {} THEN {} ELSE LET up == {WParent(x) : x \in {y \in C : y[1] < Len(n)}} IN up \cup AllAncestors(n, up)

(* What the subtree x (as it is before its row is rearranged) becomes when it is placed at y: *)
(* a sequence of <<new node, hash, old node or <<>> >>, the first entry is y itself.          *)
RECURSIVE Place(_, _, _, _, _)
Place(x, y, mv, touched, know) ==
    LET below(b) == LET c == WChild(x, b) IN IF c \in DOMAIN mv THEN mv[c] ELSE c
    IN  IF x \in touched
        THEN LET a == TLCEval(Place(below(0), WChild(y, 0), mv, touched, know))
                 b == TLCEval(Place(below(1), WChild(y, 1), mv, touched, know))
             IN  << <<y, H(a[1][2], b[1][2]), <<>> >> >> \o a \o b
        ELSE << <<y, know[x], x>> >>
             \o (IF x[1] = 0 \/ WChild(x, 0) \notin DOMAIN know THEN <<>>
                 ELSE Place(WChild(x, 0), WChild(y, 0), mv, touched, know))
             \o (IF x[1] = 0 \/ WChild(x, 1) \notin DOMAIN know THEN <<>>
                 ELSE Place(WChild(x, 1), WChild(y, 1), mv, touched, know))

RECURSIVE Minus(_, _)
Minus(n, k) == IF k = 0 THEN n ELSE Minus(Dec(n), k - 1)

BigDelete(b, T) ==      \* T \subseteq b.rem
    LET d    == TLCEval(DelRows(b.n, 0, {WLeaf(t) : t \in T}, <<>>, <<>>))
        n2   == Minus(b.n, Cardinality(T))
        rts  == WRootNodes(n2)
        touched == TLCEval(AllAncestors(b.n, DOMAIN d.mv))
        parts == TLCEval([k \in 1..Len(rts) |-> Place(d.root[rts[k][1]], rts[k], d.mv, touched, b.know)])
        entries == UNION {WRange(parts[k]) : k \in 1..Len(rts)}
    IN  [n |-> n2, roots |-> [k \in 1..Len(rts) |-> parts[k][1][2]],
         know |-> TLCEval([y \in {x[1] : x \in entries} |-> (CHOOSE x \in entries : x[1] = y)[2]]),
         rem  |-> {x[1][2] : x \in {z \in entries : z[1][1] = 0 /\ z[3] # <<>> /\ z[3][2] \in b.rem}}]
BigModify(b, adds, T) == BigAddAll(IF T = {} THEN b ELSE TLCEval(BigDelete(b, T)), adds)

BigPrune(b) == [b EXCEPT !.rem = {}]
=============================================================================
