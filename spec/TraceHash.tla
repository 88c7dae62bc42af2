----------------------------- MODULE TraceHash -----------------------------
(* Validation of recorded calls of the hash function against Hasher.         *)
EXTENDS Hasher, TLC, Json, IOUtils

TracePath == IOEnv.TRACE
Events == TLCEval(ndJsonDeserialize(TracePath))

VARIABLES l, hs, bad
vars == <<l, hs, bad>>
Init == l = 1 /\ hs = <<>> /\ bad = {}

Put(fun, k, v) == (k :> v) @@ fun
Report(e, k) == IF k = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, e.op, k, {"C24"}>>)

Become(e, h, ok, kind) ==
    /\ hs' = Put(hs, e.x, h)
    /\ bad' = IF ok THEN IF e.op = "hnew" THEN bad \ {e.x} ELSE bad ELSE bad \cup {e.x}
    /\ Report(e, IF ok THEN {} ELSE {kind})

Step(e) ==
    IF e.op = "reset" THEN hs' = <<>> /\ bad' = {}
    ELSE IF e.op = "none" THEN UNCHANGED <<hs, bad>>
    ELSE IF e.op = "crash" THEN UNCHANGED <<hs, bad>> /\ Report([e EXCEPT !.op = "crash in " \o e.of], {"crash"})
    ELSE IF e.op # "hnew" /\ e.x \in bad THEN UNCHANGED <<hs, bad>>
    ELSE CASE e.op = "hnew" -> LET h == HashNew(e.v) IN Become(e, h, e.size = HashSize(h), "size")
           [] e.op = "hreset" -> LET h == HashReset(hs[e.x]) IN Become(e, h, e.size = HashSize(h) /\ e.self, "size")
           [] e.op = "hwrite" ->
                 LET h == HashWrite(hs[e.x], e.data, e.times)
                 IN  Assert(~hs[e.x].done, <<"written after the end", l>>) /\ Become(e, h, e.size = HashSize(h) /\ e.self, "size")
           [] e.op = "hcopy" ->
                 LET h == hs[e.from] IN IF e.from \in bad THEN UNCHANGED hs /\ bad' = bad \cup {e.x}
                                        ELSE Become(e, h, e.size = HashSize(h), "size")
           [] e.op = "hfin" ->
                 LET h == hs[e.x]
                 IN  Assert(~h.done /\ e.bits <= h.v, <<"no digest to ask for", l>>)
                     /\ Become(e, HashFinish(h), e.ret = HashValue(h, e.bits), "digest")

TraceNext == l <= Len(Events) /\ Step(Events[l]) /\ l' = l + 1
TraceSpec == Init /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
