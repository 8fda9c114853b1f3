----------------------------- MODULE ResSetTrace -----------------------------
(* Recorded histories of resource sets and registries against ResSet.tla.     *)
EXTENDS ResSet, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, avail, bad
C(x) == [k \in {"s", "u", "w", "h", "t", "p", "q", "f"} |-> x[k]]
OpOf(o) == [f \in DOMAIN o |-> IF f \in {"u", "v"} THEN C(o[f]) ELSE IF f = "us" THEN [k \in 1..Len(o.us) |-> C(o.us[k])] ELSE o[f]]
Shows(t, obs) ==
  /\ obs.sets = t.sets
  /\ [r \in 1..Len(obs.uri) |-> [k \in 1..Len(obs.uri[r]) |-> C(obs.uri[r][k])]] = t.uri
  /\ obs.loaded = t.loaded
  /\ obs.rset = [r \in 1..Len(t.uri) |-> SetOf(t, r)]
Ret(e) == IF e.op.k = "Norm" /\ e.msg = "" THEN C(e.ret) ELSE e.ret
Good(e) == IF e.msg # "" THEN {} ELSE {x \in Outcomes(s, OpOf(e.op), avail) : x.ret = Ret(e) /\ [k \in 1..Len(e.reads) |-> C(e.reads[k])] = x.reads /\ Shows(x.t, e.obs)}
Init == i = 2 /\ s = [sets |-> <<<<>>, <<>>>>, uri |-> <<>>, loaded |-> <<>>] /\ avail = {} /\ bad = {}
Step(e) ==
  CASE e.ev = "meta" -> UNCHANGED <<s, avail, bad>>
    [] e.ev = "reset" ->
         /\ s' = [sets |-> <<<<>>, <<>>>>, cache |-> <<FALSE, FALSE>>, uri |-> [k \in 1..Len(e.uri) |-> [j \in 1..Len(e.uri[k]) |-> C(e.uri[k][j])]],
                  loaded |-> e.loaded, map |-> {}, pk |-> <<{}, {}, {}>>, pres |-> e.pres, cd |-> <<{}, {}, {}>>]
         /\ avail' = {C(e.avail[k]) : k \in 1..Len(e.avail)} /\ bad' = {}
    [] e.ev = "op" /\ bad # {} -> UNCHANGED <<s, avail, bad>>
    [] e.ev = "op" /\ bad = {} ->
         /\ UNCHANGED avail
         /\ IF Good(e) = {} THEN /\ bad' = {"set"} /\ UNCHANGED s
                                 /\ PrintT(ToString(<<"REJECTED", i, {"set"}>>) \o " WANT " \o ToString({[ret |-> x.ret, reads |-> x.reads, sets |-> x.t.sets, loaded |-> x.t.loaded] : x \in Outcomes(s, OpOf(e.op), avail)}))
            ELSE /\ bad' = {} /\ s' = (CHOOSE x \in Good(e) : TRUE).t
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<s, avail>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, avail, bad>>
NotBad == bad = {}
SpecSound == OneSet(s) /\ NoTwice(s)
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
