------------------------------ MODULE MetaTrace ------------------------------
(* Recorded edits of real metamodels against Meta.tla.                       *)
EXTENDS Meta, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, bad
(* what differs after the event: views as <<class, view>>, or the state itself *)
Diff(t, e) ==
  {<<c, k>> \in UNION {{c} \X DOMAIN e.views[c] : c \in Cls} : k # "z" /\ ~ViewOK(t, c, k, e.views[c][k])}
  \cup (IF LookupOK(t, e.lookup) THEN {} ELSE {<<0, "lookup">>})
  \cup (IF t = e.obs THEN {} ELSE {<<0, "state">>})
Init == i = 2 /\ s = [sup |-> <<>>] /\ bad = {}
Say(d, e, want) == PrintT(ToString(<<"REJECTED", i, d>>) \o " WANT " \o ToJson(want))
Step(e) ==
  CASE e.ev = "reset" -> /\ s' = e.obs
                         /\ bad' = Diff(e.obs, e)
                         /\ bad' # {} => Say(bad', e, s')
    [] e.ev = "op" -> LET r == Outcome(s, e.op)
                          d == Diff(r.s, e) \cup (IF e.ret \in r.rets THEN {} ELSE {<<0, "ret">>})
                      IN /\ s' = r.s
                         /\ bad' = d
                         /\ d # {} => Say(d, e, r)
    [] e.ev = "hang" -> bad' = {<<0, "hang">>} /\ UNCHANGED s /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, bad>>
NotBad == bad = {}
SpecSound == i > 2 => Sound(s)
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
