------------------------------ MODULE CopyTrace ------------------------------
(* Recorded histories of edits, deep copies and deep comparisons.            *)
EXTENDS Copy, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TMeta == TraceLog[1].meta
TOrder == TraceLog[1].cls
Watch == {w \in {"copy", "equal", "hang"} : \E k \in 1..Len(TraceLog[1].facets) : TraceLog[1].facets[k] = w}
VARIABLES i, s, c, skip, bad     \* c: [cls, px, fam], fam[o]: the copy that made o, 0 for none
Bare(v) == [o \in DOMAIN v |-> [f \in {g \in DOMAIN v[o] : ~Meta[g].container} |-> v[o][f]]]
(* the objects for which obs shows something else than state t *)
Wrong(t, cl, px, obs) ==
  LET d == Derive(t)
  IN {o \in Objs(t) : \/ obs.cls[o] # cl[o] \/ obs.px[o] # px[o] \/ obs.cont[o] # d.par[o][1]
                      \/ \E f \in DOMAIN obs.val[o] : obs.val[o][f] # FullVal(t, d, o, f)}
Say(k, d, want) ==
  PrintT(ToString(<<IF d \cap Watch # {} THEN "REJECTED" ELSE "SKIPPED", i, d>>) \o " WANT " \o ToJson(want))
Init == i = 2 /\ s = [val |-> <<>>, rc |-> <<>>, set |-> <<>>, watch |-> <<>>] /\ c = [cls |-> <<>>, px |-> <<>>, fam |-> <<>>] /\ skip = FALSE /\ bad = {}
Take(t, cl, px, fam, d, want) ==
  /\ s' = t /\ c' = [cls |-> cl, px |-> px, fam |-> fam]
  /\ skip' = (d # {}) /\ bad' = d \cap Watch
  /\ d # {} => Say(i, d, want)
Step(e) ==
  IF e.ev = "reset" THEN
    LET t == [val |-> Bare(e.obs.val), rc |-> <<>>, set |-> <<>>, watch |-> <<>>]
    IN Take(t, e.obs.cls, e.obs.px, [o \in DOMAIN e.obs.val |-> 0], IF Sound(t) THEN {} ELSE {"graph"}, "reset")
  ELSE IF skip THEN UNCHANGED <<s, c, skip, bad>>
  ELSE CASE e.ev = "op" ->
         LET t == Outcome(s, e.op).s
             w == Wrong(t, c.cls, c.px, e.obs)
             \* an object that had to stay as it was, in another family than the edited one
             far == {o \in w : t.val[o] = s.val[o] /\ c.fam[o] # c.fam[e.op.o]}
         IN Take(t, c.cls, c.px, c.fam, IF w = {} THEN {} ELSE IF far # {} THEN {"copy"} ELSE {"graph"}, w)
    [] e.ev = "copy" ->
         LET r == CopyOf(s, c.cls, c.px, e.roots)
             n == Len(r.s.val)
             k == 1 + CHOOSE m \in {c.fam[o] : o \in Objs(s)} : \A o \in Objs(s) : c.fam[o] <= m
             ok == Len(e.obs.val) = n /\ e.new = r.new /\ Wrong(r.s, r.cls, r.px, e.obs) = {}
         IN Take(r.s, r.cls, r.px, [o \in 1..n |-> IF o <= Len(c.fam) THEN c.fam[o] ELSE k], IF ok THEN {} ELSE {"copy"},
                 [new |-> r.new, n |-> n, wrong |-> IF Len(e.obs.val) >= n THEN Wrong(r.s, r.cls, r.px, e.obs) ELSE {}, val |-> r.s.val])
    [] e.ev = "eq" ->
         LET want == EqualAll(s, c.cls, c.px, e.a, e.b)
         IN Take(s, c.cls, c.px, c.fam, IF e.got = want /\ Wrong(s, c.cls, c.px, e.obs) = {} THEN {} ELSE {"equal"}, want)
    [] e.ev = "hang" -> bad' = {"hang"} \cap Watch /\ skip' = TRUE /\ UNCHANGED <<s, c>> /\ PrintT(<<"HANG", i, e>>)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, s, c, skip, bad>>
NotBad == bad = {}
SpecSound == skip \/ Sound(s)
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
