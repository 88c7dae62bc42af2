------------------------------- MODULE System -------------------------------
(****************************************************************************)
(* The library as a state machine: full forests, pollards, undo data and    *)
(* forest files.  One action per public call that changes state.  The       *)
(* results of calls are operators of Accum over this state.                 *)
(*                                                                          *)
(*  acc[x]  = [kind, rows, rem, file]   the accumulators in use             *)
(*            kind "forest": rem = {} and file = "" or a path               *)
(*            kind "pollard": rem = hashes of the remembered leaves         *)
(*  undo[u] = [pre, post]   rows before / leaves after the modification     *)
(*  disk[p] = rows of the last completed commit to path p                   *)
(****************************************************************************)
EXTENDS Accum

VARIABLES acc, undo, disk
sysvars == <<acc, undo, disk>>

Put(fun, k, v) == (k :> v) @@ fun
Drop(fun, k)   == [x \in DOMAIN fun \ {k} |-> fun[x]]

SysInit == acc = <<>> /\ undo = <<>> /\ disk = <<>>

Leaves(x) == LeavesOf(acc[x].rows)
Count(x)  == NumLeaves(acc[x].rows)
RemIdx(x) == \* indexes of the remembered leaves
    IF acc[x].rem = {} THEN {} ELSE {i \in 0..(Count(x) - 1) : acc[x].rows[1][i + 1] \in acc[x].rem}

Hashes(adds) == [k \in 1..Len(adds) |-> adds[k][1]]         \* adds: sequence of <<hash, remember>>
ToRemember(adds) == {adds[k][1] : k \in {j \in 1..Len(adds) : adds[j][2]}}

(* Added leaves are unique and not among the leaves that stay. *)
FreshAdds(leaves, adds, dels) ==
    LET new  == TLCEval(Range(Hashes(adds)))
        gone == TLCEval(Range(dels))
        stay == TLCEval({j \in 1..Len(leaves) : (j - 1) \notin gone})
    IN  /\ Cardinality(new) = Len(adds)
        /\ \A j \in stay : leaves[j] \notin new

After(rows, adds, dels) == BuildRows(Modify(LeavesOf(rows), Hashes(adds), dels))

----------------------------------------------------------------------------
(* Full forests *)

NewForest(f) ==
    /\ acc' = Put(acc, f, [kind |-> "forest", rows |-> <<>>, rem |-> {}, file |-> ""])
    /\ UNCHANGED <<undo, disk>>

(* Opening a file that does not exist creates it (and commits the empty forest). *)
OpenForest(f, path) ==
    LET rows == IF path \in DOMAIN disk THEN disk[path] ELSE <<>>
    IN  /\ acc' = Put(acc, f, [kind |-> "forest", rows |-> rows, rem |-> {}, file |-> path])
        /\ disk' = Put(disk, path, rows)
        /\ UNCHANGED undo

CommitForest(f) ==
    /\ disk' = IF acc[f].file = "" THEN disk ELSE Put(disk, acc[f].file, acc[f].rows)
    /\ UNCHANGED <<acc, undo>>

(* Destroying the object commits. *)
CloseForest(f) ==
    /\ disk' = IF acc[f].file = "" THEN disk ELSE Put(disk, acc[f].file, acc[f].rows)
    /\ acc' = Drop(acc, f)
    /\ UNCHANGED undo

(* The process dies: what was not committed is lost. *)
KillForest(f) == acc' = Drop(acc, f) /\ UNCHANGED <<undo, disk>>

(* The bytes did not fit: what the file holds is not known, the object does not write to it any more. *)
FailCommit(f) ==
    /\ disk' = Drop(disk, acc[f].file)
    /\ acc' = [acc EXCEPT ![f].file = ""]
    /\ UNCHANGED undo

(* Somebody else writes a file of a forest. *)
PutFile(path, rows) == disk' = Put(disk, path, rows) /\ UNCHANGED <<acc, undo>>

(* u = "" : no undo data wanted *)
ModifyForest(f, u, adds, dels) ==
    IF WellFormedDeletion(Count(f), dels)
    THEN LET rows == After(acc[f].rows, adds, dels)
         IN  /\ acc' = [acc EXCEPT ![f].rows = rows]
             /\ undo' = IF u = "" THEN undo ELSE Put(undo, u, [pre |-> acc[f].rows, post |-> LeavesOf(rows)])
             /\ UNCHANGED disk
    ELSE UNCHANGED sysvars

CanUndo(f, u) == u \in DOMAIN undo /\ undo[u].post = Leaves(f)
UndoForest(f, u) ==
    /\ CanUndo(f, u)
    /\ acc' = [acc EXCEPT ![f].rows = undo[u].pre]
    /\ UNCHANGED <<undo, disk>>

----------------------------------------------------------------------------
(* Pollards *)

NewPollard(p) ==
    /\ acc' = Put(acc, p, [kind |-> "pollard", rows |-> <<>>, rem |-> {}, file |-> ""])
    /\ UNCHANGED <<undo, disk>>

(* From the roots and the leaf count of the accumulator x. *)
RestorePollard(p, x) ==
    /\ acc' = Put(acc, p, [kind |-> "pollard", rows |-> acc[x].rows, rem |-> {}, file |-> ""])
    /\ UNCHANGED <<undo, disk>>

(* The leaves that are deleted have to be remembered. *)
CanModifyPollard(p, dels) ==
    WellFormedDeletion(Count(p), dels) => \A d \in Range(dels) : Leaves(p)[d + 1] \in acc[p].rem
ModifyPollard(p, adds, dels) ==
    IF WellFormedDeletion(Count(p), dels)
    THEN /\ acc' = [acc EXCEPT ![p].rows = After(@, adds, dels),
                               ![p].rem  = (@ \ {Leaves(p)[d + 1] : d \in Range(dels)}) \cup ToRemember(adds)]
         /\ UNCHANGED <<undo, disk>>
    ELSE UNCHANGED sysvars

VerdictOf(p, targets, thashes, proof) == Verdict(acc[p].rows, RemIdx(p), targets, thashes, proof)
(* On success the targets are remembered, a failed verification has no effect. *)
VerifyEffect(p, thashes, accepted) ==
    /\ acc' = IF accepted THEN [acc EXCEPT ![p].rem = @ \cup Range(thashes)] ELSE acc
    /\ UNCHANGED <<undo, disk>>
VerifyPollard(p, targets, thashes, proof, accepted) ==
    /\ VerdictOf(p, targets, thashes, proof) \in {"either", IF accepted THEN "accept" ELSE "reject"}
    /\ VerifyEffect(p, thashes, accepted)

PrunePollard(p) == acc' = [acc EXCEPT ![p].rem = {}] /\ UNCHANGED <<undo, disk>>

(* A file: the number of leaves, then the hashes of all nodes, row by row from the bottom up. *)
RECURSIVE AllNodes(_)
AllNodes(rows) == IF rows = <<>> THEN <<>> ELSE Head(rows) \o AllNodes(Tail(rows))
FileNodes(rows) == TLCEval(AllNodes(rows))
FileSize(rows)  == 8 + 32 * Len(FileNodes(rows))

Discard(x) == acc' = Drop(acc, x) /\ UNCHANGED <<undo, disk>>

----------------------------------------------------------------------------
(* Results *)

RootsOf(x) == Roots(acc[x].rows)
NodesLow(x)  == IF acc[x].rem = {} THEN Len(RootNodes(Count(x))) ELSE Cardinality(MustKnow(Count(x), RemIdx(x)))
NodesHigh(x) == IF acc[x].rem = {} THEN Len(RootNodes(Count(x))) ELSE Cardinality(MayKnow(Count(x), RemIdx(x)))

(* The heap blocks that x may hold: a few for each node, leaf and root that it has to know now,  *)
(* whatever happened before.  (The library needs about half of this.)                            *)
MaxBlocks(x) == IF acc[x].kind = "forest" THEN 64 + 4 * Count(x)
                ELSE 64 + 4 * (Cardinality(acc[x].rem) + Len(RootNodes(Count(x)))) + 2 * NodesHigh(x)
MaxBytes(x) == 8192 + 64 * MaxBlocks(x)

(* What x knows the position of, and the comparison of what x and y know. *)
Known(x) == IF acc[x].kind = "forest" THEN Range(Leaves(x)) ELSE acc[x].rem
SamePositions(x, y) ==
    LET a == TLCEval(Index(Leaves(x)))
        b == TLCEval(Index(Leaves(y)))
    IN  \A h \in Known(x) : h \in Known(y) /\ a[h] = b[h]
Equal(x, y) == Leaves(x) = Leaves(y)
CanProve(x, req) == NoDup(req) /\ Range(req) \subseteq Known(x)
ProofOf(x, req)  == CanonicalProof(acc[x].rows, req)
=============================================================================
