------------------------------ MODULE SparseMC ------------------------------
(* Sparse (pollards of any size) against Accum: verification of honest and  *)
(* damaged proofs, deletion and addition from every state with up to MaxN   *)
(* leaves, for every set of remembered leaves and every set of targets.     *)
EXTENDS Accum
CONSTANTS MaxN
HFree(a, b) == <<a, b>>
S == INSTANCE Sparse WITH H <- HFree
HInst(a, b) == HFree(a, b)

RECURSIVE ToWord(_)
ToWord(k) == IF k = 0 THEN <<>> ELSE ToWord(k \div 2) \o <<k % 2>>
Words(A) == {ToWord(x) : x \in A}
NodeW(x) == <<x[1], ToWord(x[2])>>

VARIABLES n, rem, T, D
vars == <<n, rem, T, D>>
Init == /\ n \in 1..MaxN /\ rem \in SUBSET (0..(n - 1)) /\ T \in SUBSET (0..(n - 1)) /\ D \in SUBSET (rem \cup T)
        /\ T # {} 
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

leaves == [i \in 1..n |-> <<i>>]
rows == BuildRows(leaves)
(* the pollard that verified the leaves rem one set at a time *)
Base == S!BigRestore(ToWord(n), Roots(rows))
WSeq(seq) == [k \in 1..Len(seq) |-> ToWord(seq[k])]
Ver(b, TT, proof, th) == S!BigVerdict(b, WSeq(SortInts(TT, n)), th, proof)
HashesOf(TT) == LET s == SortInts(TT, n) IN [k \in 1..Len(s) |-> leaves[s[k] + 1]]
Full(TT) == ProofHashes(rows, ProofNodes(n, TT))
Learn(b, TT) == IF TT = {} THEN b ELSE S!BigVerified(b, WSeq(SortInts(TT, n)), Ver(b, TT, Full(TT), HashesOf(TT)).know)
b1 == TLCEval(Learn(Base, rem))
b2 == TLCEval(Learn(b1, T))

Drop1(seq, k) == SubSeq(seq, 1, k - 1) \o SubSeq(seq, k + 1, Len(seq))
VerifyOk ==
    LET f == Full(T)
        th == HashesOf(T)
        same(proof, h) == Ver(b1, T, proof, h).v = Verdict(rows, rem, SortInts(T, n), h, proof)
    IN  /\ Ver(b1, T, f, th).v = "accept"
        /\ \A k \in 1..Len(f) : same(Drop1(f, k), th) /\ same([f EXCEPT ![k] = <<0>>], th)
        /\ same(<<>>, th) /\ same(Append(f, <<0>>), th)
        /\ \A k \in 1..Len(th) : same(f, [th EXCEPT ![k] = <<0>>])
StateOk(b, lv, rm) ==   \* b is the pollard of the leaves lv that remembers the hashes rm
    LET r == BuildRows(lv)
        m == Len(lv)
        I == {i \in 0..(m - 1) : lv[i + 1] \in rm}
    IN  /\ b.n = ToWord(m) /\ b.roots = Roots(r)
        /\ b.rem = Words(I)
        /\ \A x \in DOMAIN b.know : b.know[x] = CHOOSE h \in {NodeHash(r, y) : y \in {z \in {<<q, i>> : q \in 0..NumRows(m), i \in 0..m} :
                                                              z[2] < RowLen(m, z[1]) /\ NodeW(z) = x}} : TRUE
        /\ \A y \in {z \in {<<q, i>> : q \in 0..NumRows(m), i \in 0..m} : z[2] < RowLen(m, z[1])} :
              Pos(m, y[1], y[2]) \in MustKnow(m, I) => NodeW(y) \in DOMAIN b.know
        /\ Cardinality(S!BigMust(b)) = Cardinality(MustKnow(m, I))
        /\ Cardinality(S!BigMay(b)) = Cardinality(MayKnow(m, I))
Learned == StateOk(b2, leaves, {leaves[i + 1] : i \in rem \cup T})
ModifyOk ==
    LET adds == << <<100>>, <<101>>, <<102>> >>
        after == Modify(leaves, adds, SortInts(D, n))
    IN  StateOk(S!BigModify(b2, << <<adds[1], TRUE>>, <<adds[2], FALSE>>, <<adds[3], TRUE>> >>, Words(D)), after,
                ({leaves[i + 1] : i \in rem \cup T} \ {leaves[i + 1] : i \in D}) \cup {adds[1], adds[3]})
=============================================================================
