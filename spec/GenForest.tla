----------------------------- MODULE GenForest ------------------------------
(****************************************************************************)
(* The behaviours of one full forest with its file and its undo data, for   *)
(* all states with up to MaxN leaves (see GenPollard for what is written).   *)
(*                                                                          *)
(*  L     the leaves                                                        *)
(*  Disk  the leaves that were committed last (<<-1>>: no file)             *)
(*  Past  the states before the last modifications, the latest first, that  *)
(*        can still be undone (at most MaxUndo)                             *)
(* Leaves are numbered by their first occurrence in L, Disk, Past.          *)
(****************************************************************************)
EXTENDS Accum, Json, CSV, IOUtils

CONSTANTS MaxN, MaxAdds, MaxUndo, File      \* File: BOOLEAN

VARIABLES L, Disk, Past
vars == <<L, Disk, Past>>

HFree(a, b) == <<a, b>>
Out == IOEnv.GEN_OUT

NoFile == <<-1>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE FirstOnly(_, _)
FirstOnly(s, acc) == IF s = <<>> THEN acc
                     ELSE FirstOnly(Tail(s), IF Head(s) \in Range(acc) \/ Head(s) < 0 THEN acc ELSE Append(acc, Head(s)))
Ids(l, d, p) == FirstOnly(l \o d \o Flatten(p), <<>>)
Rename(ids, s) == [k \in 1..Len(s) |-> IF s[k] < 0 THEN s[k] ELSE (CHOOSE i \in 1..Len(ids) : ids[i] = s[k]) - 1]

Fresh == Len(Ids(L, Disk, Past))            \* the numbers in use are 0..Fresh-1
Key(l, d, p) == ToString(<<l, d, p>>)
Emit(cmd, ids) == CSVWrite("%1$s\t%2$s\t%3$s", <<Key(L, Disk, Past), ToJson(cmd @@ [ids |-> ids, past |-> Len(Past')]), Key(L', Disk', Past')>>, Out)

(* The next state is l, d, p up to the numbering. *)
Go(l, d, p, cmd) ==
    LET ids == TLCEval(Ids(l, d, p))
    IN  /\ L' = Rename(ids, l) /\ Disk' = Rename(ids, d) /\ Past' = [k \in 1..Len(p) |-> Rename(ids, p[k])]
        /\ Emit(cmd, ids)

Trim(p) == SubSeq(p, 1, IF Len(p) > MaxUndo THEN MaxUndo ELSE Len(p))
----------------------------------------------------------------------------
Mod ==      \* "fmod" returns undo data, "fbmod" does not
    \E D \in SUBSET (0..(Len(L) - 1)) : \E k \in 0..MaxAdds : \E how \in {"fmod", "fbmod"} :
       LET dels == SortInts(D, MaxN)
           new  == [i \in 1..k |-> Fresh + i - 1]
           l    == Modify(L, new, dels)
       IN  /\ Len(l) <= MaxN
           /\ how = "fbmod" => MaxUndo = 0 \/ k + Cardinality(D) = 1
           /\ Go(l, Disk, IF how = "fmod" THEN Trim(<<L>> \o Past) ELSE <<>>, [op |-> how, dels |-> dels, new |-> new])
BadMod ==
    \E i, j \in 0..Len(L) :
       /\ ~WellFormedDeletion(Len(L), <<i, j>>)
       /\ Go(L, Disk, Past, [op |-> "fbad", dels |-> <<i, j>>])
(* A leaf that was deleted can be added again. *)
Return ==
    \E x \in (0..(Fresh - 1)) \ Range(L) :
       /\ Len(L) < MaxN
       /\ Go(Append(L, x), Disk, Trim(<<L>> \o Past), [op |-> "fmod", dels |-> <<>>, new |-> <<x>>])
Undo == Past # <<>> /\ Go(Head(Past), Disk, Tail(Past), [op |-> "fundo"])

Commit == File /\ Go(L, L, Past, [op |-> "fcommit"])
Close  == File /\ Go(L, L, Past, [op |-> "fclose"])         \* ... and open it again
(* The process dies, the file is opened again. *)
Kill ==
    LET same == {k \in 1..Len(Past) : Past[k] = Disk}
        p    == IF Disk = L THEN Past
                ELSE IF same = {} THEN <<>>
                ELSE SubSeq(Past, 1 + (CHOOSE k \in same : \A j \in same : k <= j), Len(Past))
    IN  File /\ Go(Disk, Disk, p, [op |-> "fkill", left |-> Len(p)])

Prove ==
    \E T \in SUBSET (0..(Len(L) - 1)) : \E back \in BOOLEAN : \E other \in {0, 1, 2} :
       LET s == SortInts(T, MaxN)
           r == [k \in 1..Len(s) |-> L[IF back THEN s[Len(s) + 1 - k] + 1 ELSE s[k] + 1]]
           q == IF other = 0 THEN r ELSE IF other = 1 THEN Append(r, -1) ELSE r \o r
       IN  /\ back => Len(r) > 1
           /\ other > 0 => ~back /\ Len(r) > 0
           /\ Go(L, Disk, Past, [op |-> "fprove", req |-> q])

Init == L = <<>> /\ Disk = (IF File THEN <<>> ELSE NoFile) /\ Past = <<>>
Next == Mod \/ BadMod \/ Return \/ Undo \/ Commit \/ Close \/ Kill \/ Prove
Spec == Init /\ [][Next]_vars
TypeOk == Len(L) <= MaxN /\ NoDup(L)
=============================================================================
