----------------------------- MODULE GenPollard -----------------------------
(****************************************************************************)
(* The behaviours of one pollard, for every state with up to MaxN leaves.   *)
(*                                                                          *)
(* The leaves have no identity: a state is the number of leaves and the set *)
(* of the remembered positions.  Every transition writes one line           *)
(*     state <TAB> command <TAB> next state                                 *)
(* and tools/specgen.py turns paths through this graph, which cover all     *)
(* transitions, into calls of the library.  Leaf <<i>> is the leaf at       *)
(* position i, <<-1>> stands for a hash that is not in the accumulator.     *)
(****************************************************************************)
EXTENDS Accum, Json, CSV, IOUtils

CONSTANTS MaxN, MaxAdds, MaxOmit

VARIABLES n, R
vars == <<n, R>>

HFree(a, b) == <<a, b>>
Lv(k)     == [i \in 1..k |-> <<i - 1>>]
ROWS      == [k \in 0..MaxN |-> TLCEval(BuildRows(Lv(k)))]   \* (a constant: evaluated once)
Out       == IOEnv.GEN_OUT

Key(k, rem) == ToString(k) \o ":" \o ToString(SortInts(rem, MaxN + 1))
Emit(cmd) == CSVWrite("%1$s\t%2$s\t%3$s", <<Key(n, R), ToJson(cmd), Key(n', R')>>, Out)

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

----------------------------------------------------------------------------
Restore ==      \* forget everything, keep the roots
    /\ R' = {} /\ n' = n /\ Emit([op |-> "prest"])
PruneIt == R' = {} /\ n' = n /\ Emit([op |-> "pprune"])

Flags(k) == [1..k -> BOOLEAN]
Mod ==
    \E D \in SUBSET R : \E k \in 0..MaxAdds : \E fl \in Flags(k) :
       LET stay == Delete(Lv(n), D)
           m    == Len(stay)
       IN  /\ m + k <= MaxN
           /\ n' = m + k
           /\ R' = {i - 1 : i \in {j \in 1..m : stay[j][1] \in R}} \cup {m + i - 1 : i \in {j \in 1..k : fl[j]}}
           /\ Emit([op |-> "pmod", dels |-> SortInts(D, MaxN), adds |-> fl, stay |-> [i \in 1..m |-> stay[i][1]]])

(* Targets that are not strictly ascending or outside the forest: refused.   *)
BadMod ==
    \E i, j \in 0..n : \E k \in 0..1 :
       /\ ~WellFormedDeletion(n, <<i, j>>)
       /\ UNCHANGED vars
       /\ Emit([op |-> "pbad", dels |-> <<i, j>>, adds |-> [x \in 1..k |-> TRUE]])

(* Verification of a set of leaves with a proof that leaves out the nodes Om. *)
Nodes(T) == ProofNodes(n, T)
Sent(T, Om) == LET p == Nodes(T) IN SelectSeq(p, LAMBDA x : x \notin Om)
Ths(T) == LET s == SortInts(T, MaxN) IN [k \in 1..Len(s) |-> <<s[k]>>]
Hs(nodes) == [k \in 1..Len(nodes) |-> IF nodes[k][1] < 0 THEN <<-1>> ELSE ROWS[n][nodes[k][1] + 1][nodes[k][2] + 1]]
V(targets, ths, nodes) == Verdict(ROWS[n], R, targets, ths, Hs(nodes))
Cmd(targets, ths, nodes, v, kind) == [op |-> "pver", k |-> kind, t |-> targets, th |-> [k \in 1..Len(ths) |-> ths[k][1]], h |-> nodes, v |-> v]

Verify ==
    \E T \in SUBSET (0..(n - 1)) : \E Om \in {X \in SUBSET Range(Nodes(T)) : Cardinality(X) <= MaxOmit} :
    \E back \in BOOLEAN :
       LET s  == SortInts(T, MaxN)
           t  == IF back THEN Rev(s) ELSE s
           ns == Sent(T, Om)
           v  == V(t, Ths(T), ns)
       IN  /\ back => (Len(t) > 1 /\ Om = {})
           /\ v # "either"
           /\ n' = n
           /\ R' = IF v = "accept" THEN R \cup T ELSE R
           /\ Emit(Cmd(t, Ths(T), ns, v, IF Om = {} THEN "full" ELSE "omit"))

(* One hash is wrong: another node, or none of this accumulator.             *)
Forge ==
    \E T \in SUBSET (0..(n - 1)) \ {{}} :
       LET s   == SortInts(T, MaxN)
           ns  == Nodes(T)
           put(seq, k, x) == [seq EXCEPT ![k] = x]
           no(th, h) == /\ V(s, th, h) = "reject"
                        /\ UNCHANGED vars
                        /\ Emit(Cmd(s, th, h, "reject", "forge"))
       IN  \/ \E k \in 1..Len(ns) : \E x \in {<<-1, -1>>} \cup (Range(RootNodes(n)) \ {ns[k]}) : no(Ths(T), put(ns, k, x))
           \/ \E k \in 1..Len(s) : \E i \in {-1, (s[k] + 1) % n} \ {s[k]} : no(put(Ths(T), k, <<i>>), ns)
           \/ \E x \in {<<-1, -1>>, <<0, 0>>} : no(Ths(T), Append(ns, x))
           \/ no(Append(Ths(T), <<0>>), ns)
           \/ no(Tail(Ths(T)), ns)

Init == n = 0 /\ R = {}
Next == Restore \/ PruneIt \/ Mod \/ BadMod \/ Verify \/ Forge
Spec == Init /\ [][Next]_vars

TypeOk == n \in 0..MaxN /\ R \subseteq 0..(n - 1)
=============================================================================
