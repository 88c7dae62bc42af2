------------------------------ MODULE TraceBig ------------------------------
(* Validation of recorded calls on forests of any size: ForestState (pure   *)
(* functions) against Words, pollards against Sparse.                        *)
EXTENDS Sparse, Sha, Json, IOUtils

TracePath == IOEnv.TRACE
Events == TLCEval(ndJsonDeserialize(TracePath))

VARIABLES l, big, bad
vars == <<l, big, bad>>
Init == l = 1 /\ big = <<>> /\ bad = {}

Put(fun, k, v) == (k :> v) @@ fun
Differ(cond, kind) == IF cond THEN {} ELSE {kind}
Props(k) == IF \E x \in k : x \in {"sane"} THEN {"C20", "C22"} ELSE {"C22"}
Report(e, k) == IF k = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, e.op, k, Props(k)>>)

Positions(n, nodes) == [k \in 1..Len(nodes) |-> WPos(n, nodes[k])]
Seqs(seq) == [k \in 1..Len(seq) |-> seq[k]]

----------------------------------------------------------------------------
(* ForestState *)
StateKinds(e) ==    \* geo: the forest as a whole
    LET n == e.n
        R == WRows(n)
    IN  Differ(e.rows = R, "rows")
        \cup Differ(e.numroots = Len(WRootNodes(n)), "numroots")
        \cup Differ(Len(e.has) = R + 1 /\ \A r \in 0..R : e.has[r + 1] = WHasRoot(n, r), "hasroot")
        \cup Differ(e.roots = Positions(n, WRootNodes(n)), "rootpositions")
        \cup Differ(e.rootpos = [k \in 1..Len(WRootNodes(n)) |-> WPos(n, WRootNodes(n)[k])], "rootposition")
        \cup Differ(e.rootidx = [k \in 1..Len(WRootNodes(n)) |-> k - 1], "rootindex")
        \cup Differ(e.max = WOnes(R + 1), "maxnodes")
        \cup Differ(\A r \in 0..R : e.off[r + 1] = WPosR(R, <<r, <<>> >>), "rowoffset")

NodeKinds(n, y) ==  \* y: what the library says about the position y.pos
    LET R == WRows(n)
        x == WNodeAt(n, y.pos)
        P(z) == WPosR(R, z)
    IN  Differ(y.row = x[1], "row")
        \cup Differ(y.off = P(<<x[1], <<>> >>), "rowoffset")
        \cup Differ(x[1] < R => y.parent = P(WParent(x)), "parent")
        \cup Differ(x[1] < R => y.sib = P(WSib(x)), "sibling")
        \cup Differ(x[1] < R => y.rsib = P(IF LastBit(x[2]) = 1 THEN x ELSE WSib(x)), "rightsibling")
        \cup Differ(x[1] + 1 < R => y.cous = P(<<x[1], Strip(LET p == Pad(x[2], R - x[1]) k == Len(p)
                                                  IN SubSeq(p, 1, k - 2) \o <<1 - p[k - 1], p[k]>>)>>), "cousin")
        \cup Differ(Len(y.anc) = R - x[1] + 1 /\ \A k \in 0..(R - x[1]) : y.anc[k + 1] = P(WAncestor(x, k)), "ancestor")
        \cup Differ(x[1] > 0 => y.left = P(WChild(x, 0)), "leftchild")
        \cup Differ(x[1] > 0 => y.right = P(WChild(x, 1)), "child")
        \cup Differ(Len(y.ldesc) = x[1] + 1 /\ \A k \in 0..x[1] : y.ldesc[k + 1] = P(WLeftDescendant(x, k)), "leftdescendant")
        \cup (IF WIsNode(n, x)
              THEN LET len == WRootRow(n, x) - x[1]
                       path == Low(Pad(x[2], Len(x[2]) + len), len)
                   IN  Differ(y.tree = WTree(n, x) /\ y.len = len, "path")
                       \cup Differ(LET b == Low(Pad(y.bits, 64), len) IN \A k \in 1..len : b[k] = 1 - path[k], "path")
                       \cup Differ(y.rootidx = WTree(n, x), "rootindex")
              ELSE {})

GeoE(e) ==
    /\ UNCHANGED <<big, bad>>
    /\ Assert(\A k \in 1..Len(e.nodes) : WIsPosition(e.n, e.nodes[k].pos), <<"not a position", l>>)
    /\ Report(e, StateKinds(e) \cup UNION {NodeKinds(e.n, e.nodes[k]) : k \in 1..Len(e.nodes)})

OtherRootsE(e) ==   \* rp: roots of a smaller forest in the positions of the larger one
    /\ UNCHANGED <<big, bad>>
    /\ LET x == WRootNodes(e.m) IN
       Report(e, Differ(e.roots = [k \in 1..Len(x) |-> WPosR(WRows(e.n), x[k])], "rootpositions"))

ProofPositionsE(e) ==
    /\ UNCHANGED <<big, bad>>
    /\ Assert(WWellFormed(e.n, e.t), <<"bad targets", l>>)
    /\ Report(e, Differ(e.proof = Positions(e.n, WProofNodes(e.n, WRange(e.t))), "proofpositions")
                 \cup Differ(e.computed = Positions(e.n, WComputedNodes(e.n, WRange(e.t))), "computedpositions"))

TargetsSaneE(e) == /\ UNCHANGED <<big, bad>> /\ Report(e, Differ(e.ret = WWellFormed(e.n, e.t), "targets"))
SaneE(e) == /\ UNCHANGED <<big, bad>> /\ Report(e, Differ(e.ret = WSane(e.n, e.t, e.nh), "sane"))

----------------------------------------------------------------------------
(* Pollards *)
StateOk(b, e) == e.n = b.n /\ e.roots = b.roots
CountsOk(b, e) == e.cached = Cardinality(b.rem) /\ Cardinality(BigMust(b)) <= e.nodes /\ e.nodes <= Cardinality(BigMay(b))

Become(e, b, k) == /\ Report(e, k)
                   /\ big' = Put(big, e.p, b)
                   /\ bad' = (IF e.op = "gnew" THEN bad \ {e.p} ELSE bad) \cup (IF k = {} THEN {} ELSE {e.p})
NewE(e) ==
    LET b == BigRestore(e.n0, e.roots0)
    IN  /\ Assert(Len(e.roots0) = Len(WRootNodes(e.n0)), <<"bad roots", l>>)
        /\ Become(e, b, Differ(StateOk(b, e) /\ CountsOk(b, e), "restored"))
VerifyE(e) ==
    LET b == big[e.p]
        v == TLCEval(BigVerdict(b, e.t, e.th, e.h))
        legal == v.v \in {"either", IF e.ret THEN "accept" ELSE "reject"}
        b2 == IF legal /\ e.ret THEN BigVerified(b, e.t, v.know) ELSE b
        k == IF ~legal THEN {IF e.ret THEN "forged" ELSE "refused"}
             ELSE Differ(StateOk(b2, e), "verify.roots") \cup Differ(CountsOk(b2, e), "verify.counts")
    IN  Become(e, b2, k)
AddE(e) ==
    LET T == IF e.op = "gdel" THEN WRange(e.t) ELSE {}
        b == TLCEval(BigModify(big[e.p], e.adds, T))
    IN  /\ Assert(T \subseteq big[e.p].rem /\ (e.op = "gdel" => WWellFormed(big[e.p].n, e.t)), <<"bad deletion", l>>)
        /\ Become(e, b, Differ(e.ret /\ StateOk(b, e), "add.roots") \cup Differ(CountsOk(b, e), "add.counts"))
ProveE(e) ==
    LET b == big[e.p]
        k == IF BigProvable(b, e.req)
             THEN IF ~e.ret THEN {"prove.refused"}
                  ELSE LET pr == BigProof(b, e.req) IN Differ(e.t = pr.targets /\ e.h = pr.hashes, "prove.wrong")
             ELSE Differ(~e.ret, "prove.wrongly")
    IN  Become(e, b, k)
PruneE(e) == LET b == BigPrune(big[e.p]) IN Become(e, b, Differ(StateOk(b, e) /\ CountsOk(b, e), "prune"))

CrashE(e) ==
    /\ Report([e EXCEPT !.op = "crash in " \o e.of], {IF e.of = "gsane" THEN "sane" ELSE "crash"})
    /\ bad' = bad \cup (IF "p" \in DOMAIN e THEN {e.p} ELSE {})
    /\ UNCHANGED big

Step(e) ==
    IF e.op = "reset" THEN big' = <<>> /\ bad' = {}
    ELSE IF "p" \in DOMAIN e /\ e.p \in bad /\ e.op # "gnew" THEN UNCHANGED <<big, bad>>
    ELSE CASE e.op = "crash" -> CrashE(e)
           [] e.op = "none" -> UNCHANGED <<big, bad>>
           [] e.op = "geo" -> GeoE(e)
           [] e.op = "rp" -> OtherRootsE(e)
           [] e.op = "pp" -> ProofPositionsE(e)
           [] e.op = "ct" -> TargetsSaneE(e)
           [] e.op = "gsane" -> SaneE(e)
           [] e.op = "gnew" -> NewE(e)
           [] e.op = "gver" -> VerifyE(e)
           [] e.op \in {"gadd", "gdel"} -> AddE(e)
           [] e.op = "gprove" -> ProveE(e)
           [] e.op = "gprune" -> PruneE(e)

TraceNext == l <= Len(Events) /\ Step(Events[l]) /\ l' = l + 1
TraceSpec == Init /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
