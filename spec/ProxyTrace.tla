----------------------------- MODULE ProxyTrace ------------------------------
(* Recorded reads and edits of references that hold proxies, against Proxy.tla *)
EXTENDS Proxy, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w, s, bad
Fs(e) == Range(e.op.fs)
F(o, f) == w.feats[o][f]
Follows(e, f) == F(e.op.o, f).res /\ ~e.op.raw
Pos(e, f) == IF e.op.i < 0 THEN 1..Len(s.val[e.op.o][f]) ELSE {e.op.i + 1} \cap 1..Len(s.val[e.op.o][f])
Ps(e, f) == IF Follows(e, f) THEN Pos(e, f) ELSE {}
Sel(q, P) == LET RECURSIVE go(_) go(k) == IF k > Len(q) THEN <<>> ELSE (IF k \in P THEN <<q[k]>> ELSE <<>>) \o go(k + 1) IN go(1)
RECURSIVE Cat(_, _, _)
Cat(e, v, k) == IF k > Len(e.op.fs) THEN <<>> ELSE Sel(v[e.op.fs[k]], Pos(e, e.op.fs[k])) \o Cat(e, v, k + 1)
Others(e) == \A o \in 1..Len(w.feats) : o # e.op.o => e.obs.val[o] = s.val[o]
Notes(e) == {e.notes[k] : k \in 1..Len(e.notes)}
Resolves(e) == {k \in 1..Len(e.notes) : e.notes[k].t = RESOLVE}
May(e, must, may) == \A d \in 1..Len(s.stat) :
  e.obs.stat[d] \in (IF d \in must THEN {} ELSE {s.stat[d]}) \cup (IF d \in may \cup must THEN {After(s, d)} ELSE {})

ReadOk(e) ==
  LET o == e.op.o
      v0 == s.val[o]
      v1 == e.obs.val[o]
  IN /\ Others(e)
     /\ \A f \in 1..Len(v0) : Resolved(w, s, o, v0[f], IF f \in Fs(e) THEN Ps(e, f) ELSE {}, v1[f])
     /\ e.ret = Cat(e, v1, 1)
     /\ Notes(e) = UNION {NotesOf(f, v0[f], v1[f], F(o, f).many) : f \in 1..Len(v0)}
     /\ Len(e.notes) = Cardinality(Notes(e))
     /\ May(e, UNION {Loads(w, s, o, v0[f], Ps(e, f)) : f \in Fs(e)}, {})
(* a search may resolve what it passes *)
FindOk(e) ==
  LET o == e.op.o
      f == e.op.fs[1]
      v0 == s.val[o]
      v1 == e.obs.val[o]
      q == v0[f]
      is(k) == q[k] = e.op.x[1] \/ (Follows(e, f) /\ End(w, s, o, q[k]) = e.op.x[1])
      at == {k \in 1..Len(q) : is(k)}
      first == IF at = {} THEN 0 ELSE CHOOSE k \in at : \A l \in at : k <= l
  IN /\ Others(e)
     /\ \A g \in 1..Len(v0) : g # f => v0[g] = v1[g]
     /\ Len(v1[f]) = Len(q)
     /\ \A k \in 1..Len(q) : v1[f][k] \in {q[k]} \cup IF Follows(e, f) THEN Places(w, s, o, q[k]) ELSE {}
     /\ e.ret = IF e.op.k = "IndexOf" THEN <<first - 1>> ELSE <<IF first = 0 THEN 0 ELSE 1>>
     /\ Notes(e) = NotesOf(f, q, v1[f], TRUE) /\ Len(e.notes) = Cardinality(Notes(e))
     /\ May(e, Loads(w, s, o, q, Changed(q, v1[f])), IF Follows(e, f) THEN Loads(w, s, o, q, 1..Len(q)) ELSE {})
Blind == [w EXCEPT !.in = [o \in DOMAIN @ |-> FALSE]]
EditOk(e) ==
  LET o == e.op.o
      f == e.op.fs[1]
      v0 == s.val[o]
      v1 == e.obs.val[o]
      q == v0[f]
      u == IF F(o, f).res THEN w ELSE Blind
      Replaced(S) == /\ {<<e.notes[k].f, e.notes[k].o, e.notes[k].n>> : k \in Resolves(e)} = {<<f, q[k], End(u, s, o, q[k])>> : k \in S}
                     /\ Cardinality(Resolves(e)) = Cardinality(S)
                     /\ May(e, Loads(u, s, o, q, S), Loads(u, s, o, q, 1..Len(q)))
  IN /\ Others(e)
     /\ \A g \in 1..Len(v0) : g # f => v0[g] = v1[g]
     /\ IF e.op.k \in {"Set1", "Unset1"}
        THEN /\ v1[f] = (IF e.op.k = "Set1" THEN e.op.x ELSE <<>>)
             /\ \E S \in SUBSET (1..Len(q)) : Replaced({k \in S : End(u, s, o, q[k]) # q[k]})
        ELSE \E E \in Edits(u, s, o, e.op, q) : E.l.q = v1[f] /\ e.ret[1] \in E.l.rets /\ Replaced(E.S)
Same(e) == e.obs.val = s.val /\ e.notes = <<>>
Good(e) ==
  /\ e.msg = ""
  /\ CASE e.op.k \in {"Read"} -> ReadOk(e)
       [] e.op.k \in {"IndexOf", "Contains"} -> FindOk(e)
       [] e.op.k = "Size" -> Same(e) /\ e.obs.stat = s.stat /\ e.ret = <<Len(s.val[e.op.o][e.op.fs[1]])>>
       [] e.op.k = "Avail" -> Same(e) /\ e.obs.stat = s.stat
       [] e.op.k = "Load" -> Same(e) /\ e.obs.stat = [s.stat EXCEPT ![e.op.i] = After(s, e.op.i)]
       [] OTHER -> EditOk(e)
  /\ LET t == [s EXCEPT !.val = e.obs.val] IN \A x \in 1..Len(w.prox) : e.obs.cont[x] = Container(w, t, x)
Init == i = 2 /\ w = [in |-> <<>>] /\ s = <<>> /\ bad = {}
Step(e) ==
  CASE e.ev = "reset" -> /\ w' = [prox |-> e.prox, feats |-> e.feats, in |-> e.in]
                         /\ s' = [val |-> e.obs.val, stat |-> e.obs.stat, avail |-> e.avail] /\ bad' = {}
    [] e.ev = "op" /\ bad # {} -> UNCHANGED <<w, s, bad>>
    [] e.ev = "op" /\ bad = {} ->
         /\ UNCHANGED w
         /\ IF Good(e) THEN /\ bad' = {} /\ s' = [val |-> e.obs.val, stat |-> e.obs.stat,
                                                   avail |-> IF e.op.k = "Avail" THEN [s.avail EXCEPT ![e.op.i] = e.op.b] ELSE s.avail]
            ELSE /\ bad' = {"proxy"} /\ UNCHANGED s
                 /\ PrintT(ToString(<<"REJECTED", i, {"proxy"}>>) \o " WANT " \o ToString([op |-> e.op, ret |-> e.ret, msg |-> e.msg, before |-> s.val[e.op.o], obs |-> e.obs.val[e.op.o],
                      ends |-> [f \in 1..Len(s.val[e.op.o]) |-> [k \in 1..Len(s.val[e.op.o][f]) |-> End(w, s, e.op.o, s.val[e.op.o][f][k])]], stat |-> s.stat, stat1 |-> e.obs.stat, notes |-> e.notes, avail |-> s.avail]))
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<w, s>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, w, s, bad>>
NotBad == bad = {}
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
