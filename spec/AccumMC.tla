------------------------------ MODULE AccumMC ------------------------------
(****************************************************************************)
(* Theorems about Accum: that the specification is the accumulator it is    *)
(* meant to be.  Checked for every forest of up to MaxN leaves, every set   *)
(* of remembered leaves R, every set of targets T, every number of added    *)
(* leaves up to MaxAdds; the verifier is attacked with every proof that can *)
(* be composed of node hashes and junk, for up to MaxAttack leaves.         *)
(*                                                                          *)
(*   Geometry    positions enumerate the nodes; parents, roots, sizes       *)
(*   Conserved   deletion keeps the other leaves, adding appends            *)
(*   Complete    the canonical proof convinces a verifier with the roots    *)
(*   Sound       and nothing else does                                      *)
(*   Agreed      Verdict for a pollard without leaves is the verifier       *)
(*   Next        what a pollard must know suffices to compute what it must  *)
(*               know after any block, and the new roots                    *)
(*   Needed      each node it must know is a root or needed in some proof   *)
(*   Proves      what it must know suffices to prove what it remembers      *)
(****************************************************************************)
EXTENDS Accum

CONSTANTS MaxN, MaxAdds, MaxAttack
HFree(a, b) == <<a, b>>

VARIABLES n, R, T
vars == <<n, R, T>>
Init == n \in 1..MaxN /\ R \in SUBSET (0..(n - 1)) /\ T \in SUBSET (0..(n - 1))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Leaf(i) == <<i>>                      \* leaves have length 1, inner nodes length 2
junk == <<-1>>
leaves == [i \in 1..n |-> Leaf(i)]
rows == BuildRows(leaves)
AllNodesOf(m) == {<<r, i>> : r \in 0..NumRows(m), i \in 0..(m - 1)} \cap
                 UNION {{<<r, i>> : i \in 0..(RowLen(m, r) - 1)} : r \in 0..NumRows(m)}
Sorted == SortInts(T, n)
THashes == [k \in 1..Len(Sorted) |-> leaves[Sorted[k] + 1]]
Proof == ProofHashes(rows, ProofNodes(n, T))
RECURSIVE SumRoots(_)
SumRoots(s) == IF s = <<>> THEN 0 ELSE 2^s[1][1] + SumRoots(Tail(s))

Geometry ==
    R = {} /\ T = {} =>
    /\ \A x, y \in AllNodesOf(n) : Pos(n, x[1], x[2]) = Pos(n, y[1], y[2]) => x = y
    /\ \A x \in AllNodesOf(n) : x[1] = 0 => Pos(n, 0, x[2]) = x[2]
    /\ \A x \in AllNodesOf(n) : /\ IsRoot(n, x[1], x[2]) \/ <<x[1] + 1, x[2] \div 2>> \in AllNodesOf(n)
                                /\ IsRoot(n, x[1], x[2]) \/ <<x[1], Sib(x[2])>> \in AllNodesOf(n)
                                /\ IsRoot(n, x[1], x[2]) <=> x \in Range(RootNodes(n))
    /\ SumRoots(RootNodes(n)) = n
    /\ Len(Roots(rows)) = Len(RootNodes(n))
    /\ \A k \in 1..Len(RootNodes(n)) : Roots(rows)[k] = NodeHash(rows, RootNodes(n)[k])

Conserved ==
    R = {} =>
    LET after == Delete(leaves, T)
    IN  /\ Len(after) = n - Cardinality(T)
        /\ Range(after) = {leaves[i + 1] : i \in (0..(n - 1)) \ T}
        /\ \A k \in 0..MaxAdds : LET new == [i \in 1..k |-> Leaf(100 + i)]
                                 IN Modify(leaves, new, Sorted) = after \o new

Complete == R = {} => StatelessVerify(n, Roots(rows), Sorted, THashes, Proof)

RECURSIVE SeqsOf(_, _)
SeqsOf(A, k) == IF k = 0 THEN {<<>>} ELSE {<<a>> \o s : a \in A, s \in SeqsOf(A, k - 1)}
Alphabet == {NodeHash(rows, x) : x \in AllNodesOf(n)} \cup {junk}
Proofs == UNION {SeqsOf(Alphabet, k) : k \in 0..(Len(Proof) + 1)}
Claims == SeqsOf({leaves[i] : i \in 1..n} \cup {junk, NodeHash(rows, <<Len(rows) - 1, 0>>)}, Len(Sorted))
Sound ==
    R = {} /\ n <= MaxAttack /\ (n < MaxAttack \/ Cardinality(T) < 3) =>
    \A th \in Claims : \A p \in IF th = THashes \/ Len(th) < 3 THEN Proofs ELSE {Proof} :
        StatelessVerify(n, Roots(rows), Sorted, th, p) => th = THashes /\ p = Proof
Agreed ==
    R = {} /\ n <= MaxAttack /\ Cardinality(T) < 3 =>
    \A th \in Claims : \A p \in Proofs :
        Verdict(rows, {}, Sorted, th, p) = (IF StatelessVerify(n, Roots(rows), Sorted, th, p) THEN "accept"
                                            ELSE "reject")

(* Which hashes follow from the hashes K. *)
RECURSIVE Follows(_, _)
Follows(h, K) == h \in K \/ (Len(h) = 2 /\ Follows(h[1], K) /\ Follows(h[2], K))
HashOfPos(x) == NodeHash(rows, CHOOSE y \in AllNodesOf(n) : Pos(n, y[1], y[2]) = x)
Known == {HashOfPos(x) : x \in MustKnow(n, R)} \cup {leaves[i + 1] : i \in R}

(* T is deleted, R \ T stays remembered, some of the added leaves are remembered. *)
NextOk ==
    T \subseteq R =>
    \A k \in 0..MaxAdds : \A keep \in SUBSET (1..k) :
        LET new   == [i \in 1..k |-> Leaf(100 + i)]
            after == Modify(leaves, new, Sorted)
            rem   == {leaves[i + 1] : i \in R \ T} \cup {new[i] : i \in keep}
            m     == Len(after)
            rows2 == BuildRows(after)
            R2    == {i \in 0..(m - 1) : after[i + 1] \in rem}
            K     == Known \cup {new[i] : i \in 1..k}
        IN  \A y \in AllNodesOf(m) : Pos(m, y[1], y[2]) \in MustKnow(m, R2) => Follows(NodeHash(rows2, y), K)

Needed ==
    T = {} =>
    \A x \in MustKnow(n, R) \ RootPositions(n) :
        \E i \in R : x \in {Pos(n, y[1], y[2]) : y \in Range(ProofNodes(n, {i}))}

Proves ==
    T \subseteq R =>
    \A k \in 1..Len(Proof) : Follows(Proof[k], Known)
=============================================================================
