------------------------------ MODULE WordsMC ------------------------------
(* Words against the integer geometry of Accum, for every forest of up to MaxN leaves. *)
EXTENDS Accum, Words
CONSTANTS MaxN, MaxT
HFree(a, b) == <<a, b>>

RECURSIVE ToWord(_)
ToWord(k) == IF k = 0 THEN <<>> ELSE ToWord(k \div 2) \o <<k % 2>>
RECURSIVE ToInt(_)
ToInt(w) == IF w = <<>> THEN 0 ELSE 2 * ToInt(SubSeq(w, 1, Len(w) - 1)) + w[Len(w)]
NodeW(x) == <<x[1], ToWord(x[2])>>

VARIABLES n, T
vars == <<n, T>>
Init == n \in 0..MaxN /\ T \in {S \in SUBSET (0..(n - 1)) : Cardinality(S) <= MaxT}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

N == ToWord(n)
Nodes == {<<r, i>> : r \in 0..NumRows(n), i \in 0..n} 
Real  == {x \in Nodes : x[2] < RowLen(n, x[1])}
InTree == {x \in Nodes : x[2] < 2^(NumRows(n) - x[1])}

WordsOk == /\ ToInt(N) = n /\ IsWord(N)
           /\ Inc(N) = ToWord(n + 1) /\ Dec(Inc(N)) = N
           /\ \A m \in 0..MaxN : Less(N, ToWord(m)) <=> n < m
RowsOk  == WRows(N) = NumRows(n)
RootsOk == WRootNodes(N) = [k \in 1..Len(RootNodes(n)) |-> NodeW(RootNodes(n)[k])]
NodesOk ==
    /\ \A x \in InTree : LET w == NodeW(x) p == Pos(n, x[1], x[2]) IN
        /\ WPos(N, w) = ToWord(p)
        /\ WIsPosition(N, ToWord(p))
        /\ WNodeAt(N, ToWord(p)) = w
        /\ WIsNode(N, w) <=> x \in Real
        /\ WSib(w) = NodeW(<<x[1], Sib(x[2])>>)
        /\ WParent(w) = NodeW(<<x[1] + 1, x[2] \div 2>>)
        /\ x[1] > 0 => \A b \in {0, 1} : WChild(w, b) = NodeW(<<x[1] - 1, 2 * x[2] + b>>)
    /\ \A x \in Real : WIsRoot(N, NodeW(x)) <=> IsRoot(n, x[1], x[2])
ProofsOk ==
    LET W == {ToWord(t) : t \in T}
        P == ProofNodes(n, T)
    IN  /\ WProofNodes(N, W) = [k \in 1..Len(P) |-> NodeW(P[k])]
        /\ {WPos(N, x) : x \in Range(WComputedNodes(N, W))} = {ToWord(p) : p \in AncestorPositions(n, 0, T)}
        /\ LET c == WComputedNodes(N, W)
           IN \A i \in 1..(Len(c) - 1) : Less(WPos(N, c[i]), WPos(N, c[i + 1]))
=============================================================================
