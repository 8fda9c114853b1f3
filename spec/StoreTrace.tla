------------------------------ MODULE StoreTrace ------------------------------
(* Recorded histories of real database stores against Store.tla.               *)
(* ev "op": one call and its result; "close": the store was waited on, closed  *)
(* and opened again, nothing changes; "wait": nothing changes;                 *)
(* "call" / "return": calls of several callers, in one order of their making   *)
(* and returning (Monitor.tla); "quiet": no call is under way.                 *)
(* "watch", then "issue" and "acked": operations and completed waits of a      *)
(* process; "cut": it was killed and the store opened again, with these values.*)
EXTENDS Store, TLC, Json, IOUtils
Mon == INSTANCE Monitor
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, Q, m, hist, bad
(* hist[o][f]: the values that the feature had since the last completed wait *)

Fits(want, op, got) == got = want \/ (op.k = "Get" /\ want = <<0>> /\ got = <<-1>> /\ ~s.known[op.o])
Reject(e, d, want) == bad' = {d} /\ PrintT(ToString(<<"REJECTED", i, d>>) \o " WANT " \o ToJson(want))
Start(e) == [v |-> e.v, known |-> [o \in 1..Len(e.v) |-> FALSE], cont |-> [o \in 1..Len(e.v) |-> <<0, 0>>], roots |-> <<>>]
Past(t) == [o \in DOMAIN t.v |-> [f \in DOMAIN t.v[o] |-> {Val(m, t, o, f)}]]
Since(t) == [v |-> Past(t), cont |-> [o \in DOMAIN t.v |-> {t.cont[o]}], roots |-> {t.roots}]
Grown(h, t) == [v |-> [o \in DOMAIN t.v |-> [f \in DOMAIN t.v[o] |-> h.v[o][f] \cup {Val(m, t, o, f)}]],
                cont |-> [o \in DOMAIN t.v |-> h.cont[o] \cup {t.cont[o]}],
                roots |-> h.roots \cup {t.roots}]
(* after a wait for everything, or for an object, nothing older than now *)
Acked(h, t, o) == IF o = 0 THEN Since(t) ELSE [h EXCEPT !.v[o] = Past(t)[o], !.cont[o] = {t.cont[o]}]
(* what is not the effect of a prefix of the operations, or lacks one made before a wait *)
Lost(e) == {<<o, f>> \in {<<o, f>> : o \in DOMAIN e.v, f \in DOMAIN e.v[1]} : e.v[o][f] \notin hist.v[o][f]}
           \cup {<<o, 0>> : o \in {o \in DOMAIN e.v : e.cont[o] \notin hist.cont[o]}}
           \cup (IF e.roots \in hist.roots THEN {} ELSE {<<0, 0>>})
After(e) == [v |-> e.v, known |-> [o \in DOMAIN e.v |-> TRUE], cont |-> e.cont, roots |-> e.roots]

Init == i = 2 /\ s = <<>> /\ Q = {} /\ m = TraceLog[1].m /\ hist = <<>> /\ bad = {}
Step(e) ==
  CASE bad # {} /\ e.ev # "reset" -> UNCHANGED <<s, Q, m, hist, bad>>
    [] e.ev = "reset" -> s' = Start(e) /\ Q' = Mon!Start(Start(e)) /\ UNCHANGED <<m, hist>> /\ bad' = {}
    [] e.ev = "op" ->
         LET r == Apply(m, s, e.op)
         IN /\ Assert(Legal(m, s, e.op), "the driver made an operation outside of the contract")
            /\ s' = r[2] /\ UNCHANGED <<Q, m, hist>>
            /\ IF Fits(r[1], e.op, e.ret) THEN bad' = {} ELSE Reject(e, "store", r[1])
    [] e.ev = "wait" -> UNCHANGED <<s, Q, m, hist>> /\ IF e.err = "" \/ e.failed THEN bad' = {} ELSE Reject(e, "store", "no error")
    [] e.ev = "watch" -> hist' = Since(s) /\ UNCHANGED <<s, Q, m>> /\ bad' = {}
    [] e.ev = "issue" ->
         LET t == Apply(m, s, e.op)[2]
         IN /\ Assert(Legal(m, s, e.op), "the driver made an operation outside of the contract")
            /\ s' = t /\ hist' = Grown(hist, t) /\ UNCHANGED <<Q, m>> /\ bad' = {}
    [] e.ev = "acked" ->
         /\ hist' = Acked(hist, s, e.o) /\ UNCHANGED <<s, Q, m>>
         /\ IF e.err = "" \/ e.failed THEN bad' = {} ELSE Reject(e, "cut", "no error")
    [] e.ev = "cut" ->
         /\ UNCHANGED <<Q, m, hist>> /\ s' = After(e)
         /\ IF Lost(e) = {} THEN bad' = {} ELSE Reject(e, "cut", {<<x, IF x[2] > 0 THEN hist.v[x[1]][x[2]] ELSE {}>> : x \in Lost(e)})
    [] e.ev = "fork" -> Q' = Mon!Start(s) /\ UNCHANGED <<s, m, hist>> /\ bad' = {}
    [] e.ev = "disk" ->
         /\ UNCHANGED <<s, Q, m, hist>>
         /\ IF e.err = "" /\ e.ret = Val(m, s, e.o, e.f) THEN bad' = {} ELSE Reject(e, "disk", Val(m, s, e.o, e.f))
    [] e.ev = "call" -> /\ Q' = Mon!Call(LAMBDA t, op : {Apply(m, t, op)}, Q, e.c, e.op)
                        /\ UNCHANGED <<s, m, hist>> /\ bad' = {}
    [] e.ev = "return" -> /\ Q' = Mon!Return(Q, e.c, LAMBDA r : r = e.ret)
                          /\ UNCHANGED <<s, m, hist>>
                          /\ IF Q' = {} THEN Reject(e, "order", {p.done[e.c] : p \in {p \in Q : e.c \in DOMAIN p.done}}) ELSE bad' = {}
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<s, Q, m, hist>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, Q, m, hist, bad>>
NotBad == bad = {}
=============================================================================
