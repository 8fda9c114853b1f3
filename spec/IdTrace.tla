------------------------------- MODULE IdTrace -------------------------------
(* Recorded histories of real identifier managers against IdMgr.tla.         *)
(* Sequential histories: ev "op" with the full observation after it.         *)
(* Concurrent histories: ev "call" / "return" of caller k.                   *)
EXTENDS IdMgr, TLC, Json, IOUtils
M == INSTANCE Monitor
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, Q, kind, bad
KnownIds == <<"C07-1">>
ASSUME \A k \in 1..Len(KnownIds) : TLCSet(k, 0)
Known(k) == TLCGet(k) > 0 \/ (TLCSet(k, 1) /\ PrintT("KNOWN " \o KnownIds[k]))

Ids(e) == 1..Len(e.obs.find)
(* the observation shows state t: identifiers both ways, remembered ones, and
   nothing for an identifier nobody has *)
Shows(t, e) ==
  /\ e.obs.id = t.reg
  /\ kind = "attr" \/ e.obs.det = t.det
  /\ kind # "attr" \/ e.obs.val = t.val
  /\ \A n \in Ids(e) : e.obs.find[n] = Owner(t, n)
Fits(t, e) ==
  LET r == {<<e.ret, [t EXCEPT !.reg = e.obs.id, !.det = e.obs.det, !.val = e.obs.val]>>}
  IN {p \in Step(kind, t, e.op, Ids(e)) : p[1] = e.ret /\ Shows(p[2], e)}

Init == i = 2 /\ s = <<>> /\ Q = {} /\ kind = "" /\ bad = {}
Reject(e, d) == bad' = {d} /\ PrintT(ToString(<<"REJECTED", i, d>>) \o " WANT " \o ToJson(s))
Blank(e) == [reg |-> Zero(1..e.n), det |-> Zero(1..e.n), val |-> e.val, used |-> {}]
Step1(e) ==
  CASE bad # {} /\ e.ev # "reset" -> UNCHANGED <<s, Q, kind, bad>>
    [] e.ev = "reset" -> /\ s' = Blank(e) /\ Q' = M!Start(Blank(e)) /\ kind' = e.kind /\ bad' = {}
    [] e.ev = "op" ->
         /\ UNCHANGED <<Q, kind>>
         /\ LET f == Fits(s, e)
            IN IF f # {} THEN s' = (CHOOSE p \in f : TRUE)[2] /\ bad' = {}
               ELSE s' = s /\ Reject(e, "ids")
    (* the objects are forgotten and collected, as many others are registered *)
    [] e.ev = "arrive" ->
         LET t == [s EXCEPT !.reg = e.obs.id, !.det = e.obs.det, !.used = @ \cup {e.obs.id[o] : o \in DOMAIN s.reg}]
             old == {o \in DOMAIN t.reg : t.reg[o] \in s.used}
         IN /\ UNCHANGED <<Q, kind>> /\ s' = t
            /\ IF Bijection(t) /\ 0 \notin {t.reg[o] : o \in DOMAIN t.reg} /\ Shows(t, e)
                  \* known finding C07-1: an object allocated where a forgotten one
                  \* was gets its identifier
                  /\ (old = {} \/ ((\A o \in old : t.reg[o] \in {s.det[p] : p \in DOMAIN s.det}) /\ Known(1)))
               THEN bad' = {} ELSE Reject(e, "arrive")
    [] e.ev = "leave" ->
         LET t == [s EXCEPT !.reg = Zero(DOMAIN s.reg), !.det = s.reg]
         IN s' = t /\ UNCHANGED <<Q, kind>> /\ IF Shows(t, e) THEN bad' = {} ELSE Reject(e, "leave")
    [] e.ev = "call" -> /\ Q' = M!Call(LAMBDA t, op : Step(kind, t, op, {op.fresh[j] : j \in 1..Len(op.fresh)}), Q, e.k, e.op)
                        /\ UNCHANGED <<s, kind>> /\ bad' = {}
    [] e.ev = "return" -> /\ UNCHANGED <<s, kind>>
                          /\ Q' = M!Return(Q, e.k, LAMBDA r : r = e.ret)
                          /\ IF Q' = {} THEN Reject(e, "order") ELSE bad' = {}
    [] e.ev = "hang" -> bad' = {"hang"} /\ UNCHANGED <<s, Q, kind>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step1(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, Q, kind, bad>>
NotBad == bad = {}
Sane == s = <<>> \/ Bijection(s) \/ bad # {}
=============================================================================
