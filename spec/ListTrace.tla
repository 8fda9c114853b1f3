------------------------------ MODULE ListTrace ------------------------------
(* Recorded histories of the list types against sequences (SeqOps).          *)
(* State: the sequences of the lists of one world.  Every read of every list *)
(* is compared after every operation, so that an operation on one list that  *)
(* shows in another (shared storage) is a difference too.                    *)
EXTENDS SeqOps, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, qs, uniq, bad

Reads(q, r, dom) ==
  /\ r.get = q /\ r.it = q /\ r.all = q /\ r.arr = q
  /\ r.size = Len(q) /\ r.empty = (q = <<>>)
  /\ \A x \in 1..Len(r.idx) : r.idx[x] = IndexOf(q, x) - 1 /\ r.cont[x] = Bool01(In(x, q))
AllReads(q, obs) == \A l \in 1..Len(q) : Reads(q[l], obs[l], 0)

Outcome(q, u, op) ==
  IF op.k = "Get" THEN (IF op.i \in 0..(Len(q) - 1) THEN Did(q, q[op.i + 1]) ELSE Refuse(q))
  ELSE ListOp(u, op, q)
Say(e, want) == PrintT(ToString(<<"REJECTED", i, {"ret"}>>) \o " WANT " \o ToJson(want))
Init == i = 2 /\ qs = <<>> /\ uniq = <<>> /\ bad = {}
Step(e) ==
  CASE e.ev = "reset" -> /\ qs' = [l \in 1..Len(e.obs) |-> <<>>]
                         /\ uniq' = e.uniq
                         /\ bad' = IF AllReads(qs', e.obs) THEN {} ELSE {"ret"}
    [] e.ev = "op" -> LET r == Outcome(qs[e.op.o], uniq[e.op.o], e.op)
                      IN /\ qs' = [qs EXCEPT ![e.op.o] = r.q]
                         /\ UNCHANGED uniq
                         /\ bad' = IF e.ret \in r.rets /\ AllReads(qs', e.obs) THEN {} ELSE {"ret"}
                         /\ bad' # {} => Say(e, [s |-> [q |-> qs'], rets |-> r.rets])
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<qs, uniq>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, qs, uniq, bad>>
NotBad == bad = {}
Unique == \A l \in 1..Len(qs) : uniq[l] => NoDup(qs[l])
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
