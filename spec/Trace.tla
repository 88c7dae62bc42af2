------------------------------- MODULE Trace -------------------------------
(****************************************************************************)
(* Trace validation: the calls recorded by the driver against System.       *)
(*                                                                          *)
(* Every recorded call is matched with the action of System for that call   *)
(* and with the results System prescribes.  A call whose results differ is  *)
(* a mismatch: it is reported with its kinds (what differs) and the         *)
(* properties that these kinds break in the given history, and the objects  *)
(* involved are not looked at any more (their state is unknown).            *)
(* A trace without mismatches is a behaviour of System.                     *)
(****************************************************************************)
EXTENDS System, Serial, Sha, Json, IOUtils

TracePath == IOEnv.TRACE
Events == TLCEval(ndJsonDeserialize(TracePath))

VARIABLES
    l,      \* next event
    bad,    \* objects, undo data and files whose state is not known
    tag,    \* history of the accumulators (to attribute mismatches)
    ver,    \* per pollard: remembered leaves that were verified (the others were added)
    proofs, \* batch proof objects: [t, h] with targets as 16 hex digits
    undos,  \* undo data objects: [a, p, h]
    heap    \* <<heap blocks, bytes>> when there was no object

vars == <<acc, undo, disk, l, bad, tag, ver, proofs, undos, heap>>

TraceInit == /\ SysInit
             /\ l = 1 /\ bad = {} /\ tag = <<>> /\ ver = <<>> /\ proofs = <<>> /\ undos = <<>> /\ heap = <<0, 0>>

Differ(cond, kind) == IF cond THEN {} ELSE {kind}
Has(e, k) == k \in DOMAIN e

----------------------------------------------------------------------------
(* Which properties a mismatch breaks.  t: tags of the object's history.    *)

ForestHistory(t) ==
    (IF "undone" \in t THEN {"C08"} ELSE {})
    \cup (IF "reopened" \in t THEN {"C10"} ELSE {})
    \cup (IF {"undone", "reopened"} \subseteq t THEN {"C21"} ELSE {})
    \cup (IF "malformed" \in t THEN {"C09"} ELSE {})
    \cup (IF "foreign" \in t THEN {"C23"} ELSE {})
PollardHistory(t) ==
    (IF "failed" \in t THEN {"C05"} ELSE {})
    \cup (IF "restored" \in t THEN {"C17"} ELSE {})
    \cup (IF "malformed" \in t THEN {"C09"} ELSE {})
    \cup (IF "partial" \in t THEN {"C14"} ELSE {})

Broken(kind, t) ==
    CASE kind \in {"fnew"}                -> {"C01"}
      [] kind \in {"fmod.ret", "fmod.n", "fmod.roots"} -> {"C01"} \cup ForestHistory(t)
      [] kind = "fmod.undo"               -> {"C08"} \cup ForestHistory(t)
      [] kind = "fmod.malformed"          -> {"C09"}
      [] kind = "fobs.leaves"             -> {"C01", "C07"} \cup ForestHistory(t)
      [] kind = "fobs.pos"                -> {"C07"} \cup ForestHistory(t)
      [] kind = "fobs.state"              -> {"C01"} \cup ForestHistory(t)
      [] kind = "fprove.gone"             -> {"C06", "C07"} \cup ForestHistory(t)
      [] kind = "fprove.dup"              -> {"C06"}
      [] kind = "fprove.ret"              -> {"C06", "C07"} \cup ForestHistory(t)
      [] kind = "fprove.targets"          -> {"C06", "C07"} \cup ForestHistory(t)
      [] kind = "fprove.hashes"           -> {"C06"} \cup ForestHistory(t)
      [] kind = "fver"                    -> {"C07"} \cup ForestHistory(t)
      [] kind = "fver.state"              -> {"C07"} \cup ForestHistory(t)
      [] kind = "fundo"                   -> {"C08"} \cup ForestHistory(t)
      [] kind = "fopen"                   -> {"C10"} \cup (ForestHistory(t) \ {"C08"})
      [] kind = "fcommit"                 -> {"C10", "C23"} \cup ForestHistory(t)
      [] kind \in {"fraw", "fcommit.lost"} -> {"C23"}
      [] kind \in {"eq", "cmp"}           -> {"C19"}
      [] kind = "pnew"                    -> {"C02"}
      [] kind = "prest"                   -> {"C17"}
      [] kind = "pmod.roots"              -> {"C02"} \cup PollardHistory(t)
      [] kind = "pmod.roots.added"        -> {"C11"}
      [] kind = "pmod.roots.verified"     -> {"C11", "C18"}
      [] kind = "pmod.cached.verified"    -> {"C18"}
      [] kind = "pmod.cached"             -> {"C13"} \cup PollardHistory(t)
      [] kind = "pmod.nodes"              -> {"C13"} \cup PollardHistory(t)
      [] kind = "pmod.malformed"          -> {"C09"}
      [] kind = "pver.refused"            -> {"C02", "C03"} \cup PollardHistory(t)
      [] kind = "pver.refused.partial"    -> {"C14"} \cup PollardHistory(t)
      [] kind = "pver.forged"             -> {"C04"} \cup PollardHistory(t)
      [] kind = "pver.forged.partial"     -> {"C04", "C14"} \cup PollardHistory(t)
      [] kind = "pver.roots"              -> {"C18", "C02"} \cup PollardHistory(t)
      [] kind = "pver.cached"             -> {"C13", "C18"} \cup PollardHistory(t)
      [] kind = "pver.cached.partial"     -> {"C13", "C14", "C18"} \cup PollardHistory(t)
      [] kind = "pver.nodes"              -> {"C13"} \cup PollardHistory(t)
      [] kind = "pver.nodes.partial"      -> {"C13", "C14"} \cup PollardHistory(t)
      [] kind = "pver.fail.state"         -> {"C05"}
      [] kind = "pver.fail.counts"        -> {"C05", "C13"}
      [] kind = "pver.fail.roots"         -> {"C05", "C18"}
      [] kind = "pprune.roots"            -> {"C13", "C02"} \cup PollardHistory(t)
      [] kind = "pprune.counts"           -> {"C13"} \cup PollardHistory(t)
      [] kind = "pprove.wrongly"          -> {"C12"} \cup PollardHistory(t)
      [] kind = "pprove.refused.verified" -> {"C18"}
      [] kind = "pprove.refused"          -> {"C11"} \cup PollardHistory(t)
      [] kind = "pprove.wrong"            -> {"C11", "C12"} \cup PollardHistory(t)
      [] kind = "pprove.touched"          -> {"C12"}
      [] kind = "bproof"                  -> {"C15"}
      [] kind = "beq"                     -> {"C15", "C19"}
      [] kind = "bsane"                   -> {"C20"}
      [] kind = "undodata"                -> {"C16"}
      [] kind = "ueq"                     -> {"C16", "C19"}
      [] kind = "show"                    -> {"C26"}
      [] kind \in {"heap", "drop.blocks"} -> {"C25"}
      [] OTHER                            -> {"UNATTRIBUTED"}

TagOf(x) == IF x \in DOMAIN tag THEN tag[x] ELSE {}

Report(e, kinds, x) ==
    IF kinds = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, e.op, kinds, UNION {Broken(k, TagOf(x)) : k \in kinds}>>)

(* the objects an event depends on (d, g: second operands; b/u/d also name proofs and undo data) *)
Ids(e) == {e[k] : k \in ({"f", "g", "p", "x", "y", "b", "u", "path"} \cap DOMAIN e)}
              \cup (IF e.op \in {"beq", "ueq"} THEN {e.d} ELSE {})
Written(e) == {e[k] : k \in ({"f", "p", "u", "d"} \cap DOMAIN e)}
              \cup (IF e.op \in {"fprove", "pprove"} THEN {e.b} ELSE {})
Fresh(e) == \* objects that the event creates, whatever they were before
    IF e.op \in {"fnew"} THEN {e.f}
    ELSE IF e.op = "fopen" THEN {e.f}
    ELSE IF e.op \in {"pnew", "prest"} THEN {e.p}
    ELSE IF e.op = "fmod" THEN {e.u}
    ELSE IF e.op = "fput" THEN {e.path}
    ELSE IF e.op = "bnew" THEN {e.b}
    ELSE IF e.op \in {"fprove", "pprove"} THEN {e.b}
    ELSE IF e.op = "unew" THEN {e.u}
    ELSE {}
FileOf(x) == IF x \in DOMAIN acc /\ acc[x].file # "" THEN {acc[x].file} ELSE {}

(* Results of these kinds differ without the state being in doubt: the object is still looked at, *)
(* but what is found from now on is not attributed to its further history ("odd").               *)
Mild == {"show", "fobs.pos", "fprove.gone", "fprove.dup", "fprove.ret", "fprove.targets", "fprove.hashes",
         "pmod.cached", "pmod.cached.verified", "pmod.nodes",
         "pver.cached", "pver.cached.partial", "pver.nodes", "pver.nodes.partial",
         "pver.fail.counts", "pver.fail.state", "pprune.counts",
         "pprove.wrongly", "pprove.refused", "pprove.refused.verified", "pprove.wrong", "pprove.touched"}

Same == UNCHANGED <<acc, undo, disk>>
KeepTags == UNCHANGED <<tag, ver>>
KeepData == UNCHANGED <<proofs, undos>>
Mark(kinds, objs) == bad' = IF kinds \subseteq Mild THEN bad ELSE bad \cup objs

SetTag(x, s) == tag' = Put(tag, x, s)
With(x, s) == IF "odd" \in TagOf(x) THEN TagOf(x) ELSE TagOf(x) \cup s
(* the tags after a call that may have mild mismatches *)
TagMild(x, s, kinds) ==
    tag' = IF kinds = {} /\ s = {} THEN tag ELSE Put(tag, x, With(x, s) \cup (IF kinds = {} THEN {} ELSE {"odd"}))

----------------------------------------------------------------------------
(* Full forest *)

NewE(e) ==
    /\ NewForest(e.f)
    /\ SetTag(e.f, {}) /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(e.n = 0 /\ e.roots = <<>>, "fnew")
       IN Report(e, k, e.f) /\ bad' = (bad \ {e.f}) \cup (IF k = {} THEN {} ELSE {e.f})

OpenE(e) ==
    IF ~e.can       \* no such place: a forest without a file
    THEN /\ NewForest(e.f) /\ SetTag(e.f, {"foreign"}) /\ UNCHANGED ver /\ KeepData
         /\ LET k == Differ(e.n = 0 /\ e.roots = <<>>, "fopen")
            IN Report(e, k, e.f) /\ bad' = (bad \ {e.f}) \cup (IF k = {} THEN {} ELSE {e.f})
    ELSE
    /\ OpenForest(e.f, e.path)
    /\ SetTag(e.f, IF e.path \in DOMAIN disk THEN {"reopened"} \cup TagOf(e.path) ELSE {}) /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(e.n = NumLeaves(acc'[e.f].rows) /\ e.roots = Roots(acc'[e.f].rows), "fopen")
           t == {"reopened"} \cup TagOf(e.path)
       IN /\ IF k = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, e.op, k, Broken("fopen", t)>>)
          /\ bad' = (bad \ {e.f}) \cup (IF k = {} THEN {} ELSE {e.f})

(* A file remembers the history of the forest that was written to it. *)
TagFile(f) == tag' = IF acc[f].file = "" THEN tag ELSE Put(tag, acc[f].file, TagOf(f))
CloseE(e) == CloseForest(e.f) /\ TagFile(e.f) /\ UNCHANGED ver /\ KeepData /\ UNCHANGED bad
KillE(e)  == KillForest(e.f) /\ KeepTags /\ KeepData /\ UNCHANGED bad

Fits(e) == e.lim = 0 \/ FileSize(acc[e.f].rows) <= e.lim          \* lim: largest file, 0: any
CommitE(e) ==
    IF acc[e.f].file # "" /\ ~Fits(e)
    THEN /\ FailCommit(e.f) /\ KeepTags /\ KeepData
         /\ LET k == Differ(~e.ret /\ e.n = Count(e.f) /\ e.roots = RootsOf(e.f), "fcommit.lost")
            IN Report(e, k, e.f) /\ bad' = bad \cup {acc[e.f].file} \cup (IF k = {} THEN {} ELSE {e.f})
    ELSE
    /\ CommitForest(e.f) /\ TagFile(e.f) /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(e.ret = (acc[e.f].file # ""), IF acc[e.f].file = "" THEN "fcommit.lost" ELSE "fcommit")
                \cup Differ(e.n = Count(e.f) /\ e.roots = RootsOf(e.f), "fobs.state")
       IN Report(e, k, e.f) /\ Mark(k, {e.f} \cup FileOf(e.f))

(* The bytes of a file: count, hashes, rest (what a larger forest left behind). *)
StartsWith(s, t) == Len(s) >= Len(t) /\ \A i \in 1..Len(t) : s[i] = t[i]
RawE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET rows == disk[e.path]
           k == Differ(e.count = "00000000" \o Hex8(NumLeaves(rows)) /\ StartsWith(e.hashes, FileNodes(rows)), "fraw")
       IN Report(e, k, e.path) /\ Mark(k, {e.path})
PutE(e) ==
    LET rows == BuildRows(SubSeq(e.hashes, 1, e.num))
    IN  /\ Assert(e.count = "00000000" \o Hex8(e.num) /\ StartsWith(e.hashes, FileNodes(rows)), <<"the script writes no forest", l>>)
        /\ PutFile(e.path, rows)
        /\ SetTag(e.path, {"foreign"}) /\ UNCHANGED ver /\ KeepData /\ bad' = bad \ {e.path}

(* Undo data: how many leaves were added, where the deleted leaves were, which they were.  The  *)
(* order of the hashes is up to the forest (Undo has to find its way back).                      *)
DecHex(n) == "00000000" \o Hex8(n)
UndoOk(e) ==
    /\ e.ua = DecHex(Len(e.adds))
    /\ Len(e.up) = Len(e.dels) /\ \A i \in 1..Len(e.dels) : e.up[i] = DecHex(e.dels[i])
    /\ Len(e.uh) = Len(e.dels) /\ Range(e.uh) = {Leaves(e.f)[d + 1] : d \in Range(e.dels)}

ModifyE(e) ==   \* fmod, fbmod, fadd
    LET dels == IF e.op = "fadd" THEN <<>> ELSE e.dels
        good == WellFormedDeletion(Count(e.f), dels)
        u    == IF e.op = "fmod" THEN e.u ELSE ""
    IN  /\ Assert(good => FreshAdds(Leaves(e.f), e.adds, dels), <<"the script adds a leaf twice", l>>)
        /\ ModifyForest(e.f, u, e.adds, dels)
        /\ SetTag(e.f, With(e.f, IF good THEN {} ELSE {"malformed"})) /\ UNCHANGED <<ver, proofs>>
        /\ undos' = IF u # "" /\ good THEN Put(undos, u, [a |-> e.ua, p |-> e.up, h |-> e.uh]) ELSE undos
        /\ LET k == IF good
                    THEN Differ(e.ret, "fmod.ret") \cup Differ(e.n = NumLeaves(acc'[e.f].rows), "fmod.n")
                         \cup Differ(e.roots = Roots(acc'[e.f].rows), "fmod.roots")
                         \cup (IF e.op = "fmod" THEN Differ(UndoOk(e), "fmod.undo") ELSE {})
                    ELSE Differ(~e.ret /\ e.n = Count(e.f) /\ e.roots = RootsOf(e.f), "fmod.malformed")
           IN  /\ Report(e, k, e.f)
               /\ bad' = (bad \ (IF good THEN {u} ELSE {}))
                         \cup (IF k = {} THEN {} ELSE {e.f, u} \ {""})

UndoE(e) ==
    /\ Assert(CanUndo(e.f, e.u), <<"the script undoes something else", l>>)
    /\ UndoForest(e.f, e.u)
    /\ SetTag(e.f, With(e.f, {"undone"})) /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(e.ret /\ e.n = NumLeaves(acc'[e.f].rows) /\ e.roots = Roots(acc'[e.f].rows), "fundo")
       IN /\ IF k = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, e.op, k, Broken("fundo", tag'[e.f])>>)
          /\ Mark(k, {e.f})

ObserveE(e) ==
    /\ Same /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(e.n = Count(e.f) /\ e.roots = RootsOf(e.f), "fobs.state")
                \cup Differ(e.leaves = Leaves(e.f), "fobs.leaves")
                \cup Differ(e.pos = [i \in 1..Count(e.f) |-> i - 1], "fobs.pos")
       IN Report(e, k, e.f) /\ Mark(k, {e.f}) /\ TagMild(e.f, {}, k)

ProofKinds(x, req, ret, t, h) == \* of a forest
    IF CanProve(x, req)
    THEN IF ~ret THEN {"fprove.ret"}
         ELSE LET c == ProofOf(x, req)
              IN Differ(t = c.targets, "fprove.targets") \cup Differ(h = c.hashes, "fprove.hashes")
    ELSE IF ~ret THEN {} ELSE IF NoDup(req) THEN {"fprove.gone"} ELSE {"fprove.dup"}

ForestProveE(e) ==
    /\ Same /\ UNCHANGED <<ver, undos>>
    /\ proofs' = Put(proofs, e.b, [t |-> e.tb, h |-> e.h])
    /\ LET k == ProofKinds(e.f, e.req, e.ret, e.t, e.h)
                \cup Differ(SortedVersion(e.sb, e.tb), "fprove.targets")
       IN /\ Report(e, k, e.f) /\ TagMild(e.f, {}, k)
          /\ bad' = (bad \ {e.b}) \cup (IF k \subseteq Mild THEN {} ELSE {e.f})

ForestProbeE(e) ==
    /\ Same /\ UNCHANGED ver /\ KeepData
    /\ LET k == UNION {ProofKinds(e.f, <<e.req[i]>>, e.res[i].ret, e.res[i].t, e.res[i].h) : i \in 1..Len(e.req)}
       IN Report(e, k, e.f) /\ Mark(k, {e.f}) /\ TagMild(e.f, {}, k)

(* The full forest only checks that the targets are leaves (documented as a to-do). *)
ForestVerifyE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ((\A h \in Range(e.th) : h \in Range(Leaves(e.f))) \/ ~e.ret, "fver")
                \cup Differ(e.ret \/ ~(/\ NoDup(e.th) /\ Range(e.th) \subseteq Range(Leaves(e.f))
                                       /\ LET c == ProofOf(e.f, e.th) IN e.t = c.targets /\ e.h = c.hashes), "fver")
                \cup Differ(e.n = Count(e.f) /\ e.roots = RootsOf(e.f), "fver.state")
       IN Report(e, k, e.f) /\ Mark(k, {e.f})

EqualE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ(e.ret = Equal(e.f, e.g), "eq") IN Report(e, k, e.f) /\ Mark(k, {e.f, e.g})
CompareE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ(e.ret = SamePositions(e.x, e.y), "cmp") IN Report(e, k, e.x) /\ Mark(k, {e.x, e.y})

(* What is printed.                                                          *)
ShowE(e) ==
    /\ Same /\ UNCHANGED ver /\ KeepData
    /\ LET k == Differ(/\ Len(e.map) = Cardinality(Known(e.x))
                       /\ LET at == TLCEval(Index(Leaves(e.x))) IN Range(e.map) = {<<h, at[h] - 1>> : h \in Known(e.x)}
                       /\ e.shown = RootsOf(e.x) /\ e.roots = RootsOf(e.x) /\ e.n = Count(e.x), "show")
       IN Report(e, k, e.x) /\ Mark(k, {e.x}) /\ TagMild(e.x, {}, k)

----------------------------------------------------------------------------
(* Pollard *)

CountsOk(p, e) == e.cached = Cardinality(acc'[p].rem)
LowHigh(p) == LET n == NumLeaves(acc'[p].rows)
                  R == IF acc'[p].rem = {} THEN {} ELSE {i \in 0..(n - 1) : acc'[p].rows[1][i + 1] \in acc'[p].rem}
              IN  IF R = {} THEN <<Len(RootNodes(n)), Len(RootNodes(n))>>
                  ELSE <<Cardinality(MustKnow(n, R)), Cardinality(MayKnow(n, R))>>
NodesOk(p, e) == LET b == LowHigh(p) IN b[1] <= e.nodes /\ e.nodes <= b[2]
RootsOk(p, e) == e.n = NumLeaves(acc'[p].rows) /\ e.roots = Roots(acc'[p].rows)

NewPollardE(e) ==
    /\ NewPollard(e.p)
    /\ SetTag(e.p, {}) /\ ver' = Put(ver, e.p, {}) /\ KeepData
    /\ LET k == Differ(RootsOk(e.p, e) /\ e.cached = 0 /\ e.nodes = 0, "pnew")
       IN Report(e, k, e.p) /\ bad' = (bad \ {e.p}) \cup (IF k = {} THEN {} ELSE {e.p})

RestoreE(e) ==
    /\ RestorePollard(e.p, e.x)
    /\ SetTag(e.p, {"restored"}) /\ ver' = Put(ver, e.p, {}) /\ KeepData
    /\ LET k == Differ(RootsOk(e.p, e) /\ e.cached = 0 /\ NodesOk(e.p, e), "prest")
       IN Report(e, k, e.p) /\ bad' = (bad \ {e.p}) \cup (IF k = {} THEN {} ELSE {e.p})

ModifyPollardE(e) ==
    LET p == e.p
        good == WellFormedDeletion(Count(p), e.dels)
        gone == {Leaves(p)[d + 1] : d \in Range(e.dels)}
    IN  /\ Assert(CanModifyPollard(p, e.dels), <<"the script deletes a leaf that the pollard does not know", l>>)
        /\ Assert(good => FreshAdds(Leaves(p), e.adds, e.dels), <<"the script adds a leaf twice", l>>)
        /\ ModifyPollard(p, e.adds, e.dels)
        /\ KeepData
        /\ ver' = IF good THEN [ver EXCEPT ![p] = @ \ gone] ELSE ver
        /\ LET rootsok == e.ret /\ RootsOk(p, e)
               k == IF good
                    THEN IF rootsok
                         THEN Differ(CountsOk(p, e), "pmod.cached") \cup Differ(NodesOk(p, e), "pmod.nodes")
                              \cup Differ(CountsOk(p, e) \/ ver[p] = {}, "pmod.cached.verified")
                         ELSE {"pmod.roots"} \cup (IF gone \subseteq ver[p] THEN {} ELSE {"pmod.roots.added"})
                              \cup (IF gone \cap ver[p] = {} THEN {} ELSE {"pmod.roots.verified"})
                    ELSE Differ(~e.ret /\ RootsOk(p, e) /\ CountsOk(p, e) /\ e.nodes = e.nodes0, "pmod.malformed")
           IN Report(e, k, p) /\ Mark(k, {p}) /\ TagMild(p, IF good THEN {} ELSE {"malformed"}, k)

Partial(p, e) == Len(e.h) < Len(ProofNodes(Count(p), Range(e.t)))
VerifyE(e) ==
    LET p == e.p
        v == VerdictOf(p, e.t, e.th, e.h)
        partial == v # "reject" /\ Partial(p, e)
        legal == v \in {"either", IF e.ret THEN "accept" ELSE "reject"}
    IN  /\ IF legal THEN VerifyEffect(p, e.th, e.ret) ELSE Same
        /\ KeepData
        /\ ver' = IF e.ret /\ legal THEN [ver EXCEPT ![p] = @ \cup Range(e.th)] ELSE ver
        /\ LET k == IF ~legal
                    THEN IF e.ret
                         THEN {IF Len(e.th) = Len(e.t) /\ Range(e.t) \subseteq 0..(Count(p) - 1) /\ Partial(p, e)
                               THEN "pver.forged.partial" ELSE "pver.forged"}
                         ELSE {IF partial THEN "pver.refused.partial" ELSE "pver.refused"}
                    ELSE IF e.ret
                    THEN Differ(RootsOk(p, e), "pver.roots")
                         \cup Differ(CountsOk(p, e), IF partial THEN "pver.cached.partial" ELSE "pver.cached")
                         \cup Differ(NodesOk(p, e), IF partial THEN "pver.nodes.partial" ELSE "pver.nodes")
                    ELSE Differ(RootsOk(p, e), "pver.fail.roots")
                         \cup Differ(CountsOk(p, e) /\ NodesOk(p, e), "pver.fail.counts")
                         \cup Differ(e.nodes = e.nodes0, "pver.fail.state")
           IN Report(e, k, p) /\ Mark(k, {p})
              /\ TagMild(p, IF e.ret /\ ~partial THEN {} ELSE {IF e.ret THEN "partial" ELSE "failed"}, k)

PruneE(e) ==
    /\ PrunePollard(e.p) /\ ver' = [ver EXCEPT ![e.p] = {}] /\ KeepData
    /\ LET k == Differ(RootsOk(e.p, e), "pprune.roots")
                \cup Differ(CountsOk(e.p, e) /\ NodesOk(e.p, e), "pprune.counts")
       IN Report(e, k, e.p) /\ Mark(k, {e.p}) /\ TagMild(e.p, {}, k)

PollardProofKinds(x, req, ret, t, h) ==
    IF CanProve(x, req)
    THEN IF ~ret THEN {"pprove.refused"} \cup (IF Range(req) \cap ver[x] = {} THEN {} ELSE {"pprove.refused.verified"})
         ELSE LET c == ProofOf(x, req) IN Differ(t = c.targets /\ h = c.hashes, "pprove.wrong")
    ELSE IF ret THEN {"pprove.wrongly"} ELSE {}

PollardProveE(e) ==
    /\ Same /\ UNCHANGED <<ver, undos>>
    /\ proofs' = Put(proofs, e.b, [t |-> e.tb, h |-> e.h])
    /\ LET k == PollardProofKinds(e.p, e.req, e.ret, e.t, e.h)
                \cup (IF e.ret THEN Differ(SortedVersion(e.sb, e.tb), "pprove.wrong")
                      ELSE Differ(e.t = e.t0 /\ e.h = e.h0, "pprove.touched"))
       IN /\ Report(e, k, e.p) /\ TagMild(e.p, {}, k)
          /\ bad' = (bad \ {e.b}) \cup (IF k \subseteq Mild THEN {} ELSE {e.p})

PollardProbeE(e) ==
    /\ Same /\ UNCHANGED ver /\ KeepData
    /\ LET k == UNION {PollardProofKinds(e.p, <<e.req[i]>>, e.res[i].ret, e.res[i].t, e.res[i].h) : i \in 1..Len(e.req)}
       IN Report(e, k, e.p) /\ Mark(k, {e.p}) /\ TagMild(e.p, {}, k)

DropE(e) == /\ Discard(e.x) /\ KeepTags /\ KeepData /\ UNCHANGED bad
            /\ Report(e, Differ(e.blocks <= MaxBlocks(e.x) /\ e.bytes <= MaxBytes(e.x), "drop.blocks"), e.x)

(* Nothing exists: the heap is as full as the last time.                     *)
HeapE(e) ==
    /\ Assert(acc = <<>> /\ proofs = <<>> /\ undos = <<>>, <<"there are objects", l>>)
    /\ heap' = <<e.blocks, e.bytes>>
    /\ Same /\ KeepTags /\ KeepData /\ UNCHANGED bad
    /\ Report(e, Differ(e.first \/ (e.blocks <= heap[1] /\ e.bytes <= heap[2] + 64), "heap"), "")

----------------------------------------------------------------------------
(* Batch proofs and undo data as objects *)

Content(e) == [t |-> e.tb, h |-> e.h]
ProofOk(e, c) == Content(e) = c /\ SortedVersion(e.sb, e.tb)

ProofObjE(e) ==
    LET old  == IF e.b \in DOMAIN proofs THEN proofs[e.b] ELSE [t |-> <<>>, h |-> <<>>]
        dest == IF e.op = "bround" THEN e.d ELSE e.b
        olddest == IF dest \in DOMAIN proofs THEN proofs[dest] ELSE [t |-> <<>>, h |-> <<>>]
        bytes == SerializeProof(old.t, old.h)
        expect ==
            CASE e.op = "bnew"  -> [ret |-> TRUE, c |-> [t |-> e.t0, h |-> e.h0]]
              [] e.op = "bnull" -> [ret |-> TRUE, c |-> [t |-> <<>>, h |-> <<>>]]
              [] e.op = "bser"  -> [ret |-> e.bytes = bytes, c |-> old]
              [] e.op = "bunser" -> IF ReadableProof(e.bytes) THEN [ret |-> e.ret, c |-> ReadProof(e.bytes)]
                                                              ELSE [ret |-> ~e.ret, c |-> old]
              [] e.op = "bround" -> [ret |-> e.ret /\ e.bytes = bytes, c |-> ReadProof(bytes)]
        k == Differ(expect.ret /\ ProofOk(e, expect.c), "bproof")
    IN  /\ Same /\ KeepTags /\ UNCHANGED undos
        /\ proofs' = Put(proofs, dest, expect.c)
        /\ Report(e, k, e.b)
        /\ bad' = IF k = {} THEN bad \ (IF e.op \in {"bnew", "bnull", "bround"} THEN {dest} ELSE {}) ELSE bad \cup {dest}

SlotProof(b) == IF b \in DOMAIN proofs THEN proofs[b] ELSE [t |-> <<>>, h |-> <<>>]
BEqE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ(e.ret = (SlotProof(e.b) = SlotProof(e.d)), "beq") IN Report(e, k, e.b) /\ Mark(k, {e.b, e.d})
SaneE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ(e.ret = Sane(e.num, e.t, Len(e.h)), "bsane") IN Report(e, k, e.b) /\ Mark(k, {e.b})

ShowProofE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET c == SlotProof(e.b)
           k == Differ(e.numbers = c.t /\ e.hashes = c.h, "show")
       IN Report(e, k, e.b) /\ Mark(k, {e.b})
ShowUndoE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET c == IF e.u \in DOMAIN undos THEN undos[e.u] ELSE [a |-> "0000000000000000", p |-> <<>>, h |-> <<>>]
           k == Differ(e.numbers = <<c.a>> \o c.p /\ e.hashes = c.h, "show")
       IN Report(e, k, e.u) /\ Mark(k, {e.u})

UContent(e) == [a |-> e.ua, p |-> e.up, h |-> e.uh]
UndoObjE(e) ==
    LET old  == IF e.u \in DOMAIN undos THEN undos[e.u] ELSE [a |-> "0000000000000000", p |-> <<>>, h |-> <<>>]
        dest == IF e.op = "uround" THEN e.d ELSE e.u
        bytes == SerializeUndo(old.a, old.p, old.h)
        expect ==
            CASE e.op = "unew"   -> [ret |-> TRUE, c |-> [a |-> e.ua0, p |-> e.up0, h |-> e.uh0]]
              [] e.op = "user"   -> [ret |-> e.bytes = bytes, c |-> old]
              [] e.op = "uunser" -> IF ReadableUndo(e.bytes) THEN [ret |-> e.ret, c |-> ReadUndo(e.bytes)]
                                    ELSE [ret |-> ~e.ret, c |-> [old EXCEPT !.a = e.ua]]
              [] e.op = "uround" -> [ret |-> e.ret /\ e.bytes = bytes, c |-> ReadUndo(bytes)]
        k == Differ(expect.ret /\ UContent(e) = expect.c, "undodata")
    IN  /\ UNCHANGED <<acc, disk>> /\ KeepTags /\ UNCHANGED proofs
        /\ undos' = Put(undos, dest, expect.c)
        /\ undo' = IF e.op = "uround" /\ e.u \in DOMAIN undo THEN Put(undo, dest, undo[e.u])
                   ELSE IF e.op \in {"unew", "uround", "uunser"} THEN Drop(undo, dest) ELSE undo
        /\ Report(e, k, e.u)
        /\ bad' = IF k = {} THEN bad \ (IF e.op \in {"unew", "uround"} THEN {dest} ELSE {}) ELSE bad \cup {dest}
UEqE(e) ==
    /\ Same /\ KeepTags /\ KeepData
    /\ LET k == Differ(e.ret = (undos[e.u] = undos[e.d]), "ueq") IN Report(e, k, e.u) /\ Mark(k, {e.u, e.d})

----------------------------------------------------------------------------
(* The process died or hung in a call: whatever was promised of this call is broken. *)

CrashKinds(e) ==
    CASE e.of \in {"fnew"} -> {"fnew"}
      [] e.of = "fopen" -> {"fopen"}
      [] e.of \in {"fcommit", "fclose", "fkill"} -> {"fcommit"}
      [] e.of \in {"fmod", "fbmod"} -> IF WellFormedDeletion(Count(e.f), e.dels) THEN {"fmod.ret"} ELSE {"fmod.malformed"}
      [] e.of = "fadd" -> {"fmod.ret"}
      [] e.of = "fundo" -> {"fundo"}
      [] e.of = "fobs" -> {"fobs.leaves", "fobs.pos"}
      [] e.of \in {"fprove", "fprobe"} -> {"fprove.ret"}
      [] e.of = "fver" -> {"fver"}
      [] e.of = "eq" -> {"eq"}
      [] e.of = "cmp" -> {"cmp"}
      [] e.of \in {"show", "bshow", "ushow"} -> {"show"}
      [] e.of = "pnew" -> {"pnew"}
      [] e.of = "prest" -> {"prest"}
      [] e.of = "pmod" -> IF ~WellFormedDeletion(Count(e.p), e.dels) THEN {"pmod.malformed"}
                          ELSE LET gone == {Leaves(e.p)[d + 1] : d \in Range(e.dels)}
                               IN {"pmod.roots"} \cup (IF gone \subseteq ver[e.p] THEN {} ELSE {"pmod.roots.added"})
                                  \cup (IF gone \cap ver[e.p] = {} THEN {} ELSE {"pmod.roots.verified"})
      [] e.of = "pver" -> LET v == VerdictOf(e.p, e.t, e.th, e.h)
                          IN IF v = "reject" THEN {"pver.forged", "pver.fail.state"}
                             ELSE IF Partial(e.p, e) THEN {"pver.refused.partial"} ELSE {"pver.refused"}
      [] e.of = "pprune" -> {"pprune.counts"}
      [] e.of = "pprove" -> IF CanProve(e.p, e.req) THEN {"pprove.refused"} ELSE {"pprove.wrongly"}
      [] e.of = "pprobe" -> {"pprove.wrongly"} \cup (IF Range(e.req) \cap acc[e.p].rem = {} THEN {} ELSE {"pprove.refused"})
      [] e.of \in {"bnew", "bnull", "bser", "bunser", "bround"} -> {"bproof"}
      [] e.of = "beq" -> {"beq"}
      [] e.of = "bsane" -> {"bsane"}
      [] e.of \in {"unew", "user", "uunser", "uround"} -> {"undodata"}
      [] e.of = "ueq" -> {"ueq"}
      [] OTHER -> {"crash"}

(* The objects are destroyed (files are committed).  *)
LiveTags == UNION {Broken(IF acc[x].kind = "forest" THEN "fcommit" ELSE "pmod.nodes", TagOf(x)) : x \in DOMAIN acc}

CrashE(e) ==
    LET involved == Ids([e EXCEPT !.op = e.of]) \ Fresh([e EXCEPT !.op = e.of])
        x == IF Has(e, "f") THEN e.f ELSE IF Has(e, "p") THEN e.p ELSE ""
        atend == e.of \in {"reset", "drop"}
        kinds == IF involved \cap bad # {} \/ (atend /\ bad # {}) THEN {} ELSE CrashKinds(e)
        t == TagOf(x) \cup (IF e.of = "fundo" THEN {"undone"} ELSE {})
    IN  /\ IF kinds = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, "crash in " \o e.of, kinds,
                                                       IF atend /\ DOMAIN acc # {} THEN LiveTags \cup {"C25"} ELSE UNION {Broken(k, t) : k \in kinds}>>)
        /\ bad' = bad \cup Written([e EXCEPT !.op = e.of]) \cup Ids([e EXCEPT !.op = e.of]) \cup FileOf(x)
        /\ Same /\ KeepTags /\ KeepData

ResetE == /\ acc' = <<>> /\ undo' = <<>> /\ disk' = <<>>
          /\ bad' = {} /\ tag' = <<>> /\ ver' = <<>> /\ proofs' = <<>> /\ undos' = <<>>

(* Something the event depends on is not known any more: no judgement.      *)
Unknown(e) == \E x \in (Ids(e) \ Fresh(e)) : x \in bad
SkipE(e) ==
    /\ bad' = bad \cup Written(e) \cup (IF Has(e, "f") THEN FileOf(e.f) ELSE {})
                  \cup (IF e.op = "fopen" THEN {e.f, e.path} ELSE {})
    /\ Same /\ KeepTags /\ KeepData

----------------------------------------------------------------------------
Step(e) ==
    IF e.op = "heap" THEN HeapE(e)
    ELSE UNCHANGED heap /\
    IF e.op = "reset" THEN ResetE
    ELSE IF e.op = "crash" THEN CrashE(e)
    ELSE IF Unknown(e) THEN SkipE(e)
    ELSE CASE e.op = "fnew" -> NewE(e)
           [] e.op = "fopen" -> OpenE(e)
           [] e.op = "fclose" -> CloseE(e)
           [] e.op = "fkill" -> KillE(e)
           [] e.op = "fcommit" -> CommitE(e)
           [] e.op \in {"fmod", "fbmod", "fadd"} -> ModifyE(e)
           [] e.op = "fundo" -> UndoE(e)
           [] e.op = "fraw" -> RawE(e)
           [] e.op = "fput" -> PutE(e)
           [] e.op = "flimit" -> Same /\ KeepTags /\ KeepData /\ UNCHANGED bad
           [] e.op = "fobs" -> ObserveE(e)
           [] e.op = "fprove" -> ForestProveE(e)
           [] e.op = "fprobe" -> ForestProbeE(e)
           [] e.op = "fver" -> ForestVerifyE(e)
           [] e.op = "eq" -> EqualE(e)
           [] e.op = "cmp" -> CompareE(e)
           [] e.op = "show" -> ShowE(e)
           [] e.op = "bshow" -> ShowProofE(e)
           [] e.op = "ushow" -> ShowUndoE(e)
           [] e.op = "pnew" -> NewPollardE(e)
           [] e.op = "prest" -> RestoreE(e)
           [] e.op = "pmod" -> ModifyPollardE(e)
           [] e.op = "pver" -> VerifyE(e)
           [] e.op = "pprune" -> PruneE(e)
           [] e.op = "pprove" -> PollardProveE(e)
           [] e.op = "pprobe" -> PollardProbeE(e)
           [] e.op = "drop" -> DropE(e)
           [] e.op \in {"bnew", "bnull", "bser", "bunser", "bround"} -> ProofObjE(e)
           [] e.op = "beq" -> BEqE(e)
           [] e.op = "bsane" -> SaneE(e)
           [] e.op \in {"unew", "user", "uunser", "uround"} -> UndoObjE(e)
           [] e.op = "ueq" -> UEqE(e)

TraceNext == l <= Len(Events) /\ Step(Events[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
