------------------------------- MODULE MapTrace -------------------------------
(* Recorded histories of real maps against Maps.tla.                         *)
EXTENDS Maps, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, w, bad
Entries(t, m) == [p \in 1..Len(t.q[m]) |-> <<t.q[m][p], t.K[t.q[m][p]], t.V[t.q[m][p]]>>]
Owners(t) == [e \in 1..Len(t.K) |-> LET ms == {m \in 1..Len(t.q) : w.obj[m] /\ In(e, t.q[m])} IN IF ms = {} THEN 0 ELSE CHOOSE m \in ms : TRUE]
Ok(t, e) ==
  /\ Len(e.obs) = Len(t.q) /\ \A m \in 1..Len(t.q) : e.obs[m] = Entries(t, m)
  /\ e.own = Owners(t)
  /\ e.op.k \in {"Read", "ReadImm"} => e.read = ReadMap(t, e.op.o, w.nk, w.nv)
Init == i = 2 /\ s = [q |-> <<>>, K |-> <<>>, V |-> <<>>] /\ w = [obj |-> <<>>, nk |-> 0, nv |-> 0] /\ bad = {}
Step(e) ==
  CASE e.ev = "reset" -> /\ s' = [q |-> [m \in 1..Len(e.obj) |-> <<>>], K |-> <<>>, V |-> <<>>]
                         /\ w' = [obj |-> e.obj, nk |-> e.nk, nv |-> e.nv]
                         /\ bad' = {}
    [] e.ev = "op" /\ bad # {} -> UNCHANGED <<s, w, bad>>     \* only when triaging
    [] e.ev = "op" /\ bad = {} -> LET r == Outcome(s, w.obj, e.op)
                      IN /\ Assert(Allowed(s, e.op), "the driver made an operation outside of the contract")
                         /\ s' = r.s /\ UNCHANGED w
                         /\ bad' = IF e.ret \in r.rets /\ Ok(r.s, e) THEN {} ELSE {"map"}
                         /\ bad' # {} => PrintT(ToString(<<"REJECTED", i, {"map"}>>) \o " WANT " \o
                                          ToJson([q |-> [m \in 1..Len(r.s.q) |-> Entries(r.s, m)], own |-> Owners(r.s), rets |-> r.rets, read |-> ReadMap(r.s, e.op.o, w.nk, w.nv)]))
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<s, w>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, w, bad>>
NotBad == bad = {}
SpecSound == OneEntryPerKey(s) /\ OneMapPerObject(s, w.obj)
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
