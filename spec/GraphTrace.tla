----------------------------- MODULE GraphTrace -----------------------------
(* Acceptance of recorded histories of real object graphs by Graph.tla.      *)
(*                                                                           *)
(* After every event the set of facets in which the implementation differs   *)
(* from the specification is computed. The facets named in FACETS are those  *)
(* the property under check speaks about: a difference in one of them is     *)
(* kept in bad and violates the invariant. A difference in other facets only *)
(* ends the history (the trace is skipped up to the next reset), because      *)
(* from there on the states are not comparable.                              *)
EXTENDS Graph, Notes, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Hdr == TraceLog[1]
TMeta == Hdr.meta
Watch == {w \in {"ret", "val", "cont", "opp", "notes", "res", "rlog", "kids", "walk", "watch", "ids", "addr", "stored", "hang"} :
            \E k \in 1..Len(Hdr.facets) : Hdr.facets[k] = w}

VARIABLES i, s, skip, bad,
          mem   \* mem[r][o]: the identifier o has had in resource r, or 0

Bare(v) == [o \in DOMAIN v |-> [f \in {g \in DOMAIN v[o] : ~Meta[g].container} |-> v[o][f]]]
StateOf(obs) == [val |-> Bare(obs.val), rc |-> obs.rc, set |-> obs.set, watch |-> obs.watch]

CFeats == {f \in DOMAIN Meta : Meta[f].cont}
LFeats == {f \in DOMAIN Meta : IsLink(f)}

RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Concat(SubSeq(qs, 2, Len(qs)))

(* contents and cross references of x in feature order *)
OfFeatures(t, x, P(_)) ==
  Concat([k \in 1..Len(Hdr.feats[x]) |->
     LET f == Hdr.feats[x][k] IN IF P(f) THEN t.val[x][f] ELSE <<>>])
IsC(f) == Meta[f].cont
IsX(f) == ~Meta[f].cont /\ ~Meta[f].attr /\ ~Meta[f].container

(* the traversals: contents in depth, parents first; instances of a class among
   them; ancestors *)
RECURSIVE All(_, _)
All(t, x) == LET k == OfFeatures(t, x, IsC) IN Concat([j \in 1..Len(k) |-> <<k[j]>> \o All(t, k[j])])
IsA(x, c) == \E j \in 1..Len(Hdr.inst[x]) : Hdr.inst[x][j] = c
RECURSIVE AncestorA(_, _, _)   \* nearest, itself included, whose class is exactly c
AncestorA(par, x, c) == IF x = 0 THEN 0 ELSE IF Hdr.inst[x][1] = c THEN x ELSE AncestorA(par, par[x][1], c)
WalkDiff(t, d, obs) ==
  IF \A x \in Objs(t) :
       LET a == All(t, x)
           want == SelectSeq(a, LAMBDA y : IsA(y, obs.typed[x].c))
           got == obs.typed[x].x
       IN /\ obs.all[x] = a
          /\ Len(got) = Len(want) /\ Range(got) = Range(want)
          /\ \A y \in Objs(t) : obs.up[x][y] = (y \in UpwardVia(d.par, x, 99))
          /\ obs.anc[x] = AncestorA(d.par, x, obs.typed[x].c)
  THEN IF \A r \in Ress(t) : obs.rall[r] = Concat([j \in 1..Len(t.rc[r]) |-> <<t.rc[r][j]>> \o All(t, t.rc[r][j])])
       THEN {} ELSE {"walk"}
  ELSE {"walk"}

(* deviations listed in known_findings.txt; each is reported once per run *)
KnownIds == <<"C02-1", "C06-1", "C05-1">>
ASSUME \A k \in 1..Len(KnownIds) : TLCSet(k, 0)
Known(id) == TLCGet(id) > 0 \/ (TLCSet(id, 1) /\ PrintT("KNOWN " \o KnownIds[id]))

(* the store of the objects that have one holds the same values and containers *)
StoredDiff(t, d, obs) ==
  IF "stored" \notin DOMAIN obs THEN {}
  ELSE IF \A o \in Objs(t) :
            /\ \A f \in DOMAIN obs.stored[o] : obs.stored[o][f] = t.val[o][f]
            /\ obs.storedin[o].on => <<obs.storedin[o].o, obs.storedin[o].f>> = <<d.par[o][1], d.par[o][2]>>
            /\ \A k \in 1..Len(obs.lists) :
                 LET l == obs.lists[k]
                     v == t.val[l.o][l.f]
                 IN /\ l.size = Len(v) /\ l.empty = (v = <<>>) /\ l.arr = v /\ l.got = v /\ l.it = v /\ l.all = v
                    /\ \A j \in 1..Len(l.dom) : l.idx[j] = IndexOf(v, l.dom[j]) - 1
                    /\ l.dom = <<>> \/ Range(l.cont) = Range(v)
       THEN {} ELSE {"stored"}

(* state facets: what the public API shows against state t, d = Derive(t) *)
StateDiff(t, d, obs) ==
  LET wrong == {<<o, f>> \in UNION {{<<o, f>> : f \in DOMAIN obs.val[o]} : o \in Objs(t)} :
                  obs.val[o][f] # FullVal(t, d, o, f)}
      Cfeat(o) == d.par[o][2]
  IN (IF \E w \in wrong : ~Meta[w[2]].cont /\ ~Meta[w[2]].container /\ Meta[w[2]].opp = "" THEN {"val"} ELSE {})
     \cup (IF \E w \in wrong : Meta[w[2]].cont \/ Meta[w[2]].container THEN {"cont"} ELSE {})
     \cup (IF \E w \in wrong : Meta[w[2]].opp # "" THEN {"opp"} ELSE {})
     \cup (IF \A o \in Objs(t) :
              /\ obs.cont[o] = d.par[o][1]
              /\ obs.cfeat[o] = Cfeat(o)
              /\ obs.cmfeat[o] = Cfeat(o)
           THEN {} ELSE {"cont"})
     \cup (IF t.rc = obs.rc /\ (\A r \in Ress(t) : obs.loaded[r] = (t.rc[r] # <<>>)) /\ \A o \in Objs(t) : obs.dres[o] = d.dir[o] /\ obs.res[o] = d.res[o]
           THEN {} ELSE {"res"})
     \cup (IF \A o \in Objs(t) :
              obs.kids[o] = OfFeatures(t, o, IsC) /\ obs.xrefs[o] = OfFeatures(t, o, IsX)
           THEN {} ELSE {"kids"})
     \cup (IF "all" \in DOMAIN obs THEN WalkDiff(t, d, obs) ELSE {})
     \cup StoredDiff(t, d, obs)

(* the notifications of the event, replayed from the previous values, have to
   give the new ones, feature by feature *)
RECURSIVE ReplayAll(_, _)
ReplayAll(v, ns) ==   \* v is [ok, val]
  IF ns = <<>> \/ ~v.ok THEN v
  ELSE LET n == ns[1]
       IN IF n.n \notin DOMAIN v.val \/ n.at # n.n \/ n.f \notin DOMAIN v.val[n.n] \/ ~Fits(Meta[n.f].many, n, v.val[n.n][n.f])
          THEN [v EXCEPT !.ok = FALSE]
          ELSE ReplayAll([v EXCEPT !.val[n.n][n.f] = Replay(Meta[n.f].many, n, @)], SubSeq(ns, 2, Len(ns)))
NotesDiff(before, d, e) ==
  IF e.quiet THEN (IF e.notes = <<>> THEN {} ELSE {"notes"})
  ELSE LET v0 == [o \in Objs(before) |-> [f \in DOMAIN e.obs.val[o] |-> FullVal(before, d, o, f)]]
           r == ReplayAll([ok |-> TRUE, val |-> v0], e.notes)
           off == Range(e.off)   \* objects whose delivery is switched off
       IN IF /\ \A k \in 1..Len(e.notes) : e.notes[k].n \notin off
             /\ r.ok
             /\ \A o \in Objs(before) \ off : r.val[o] = e.obs.val[o]
          THEN {} ELSE {"notes"}

(* attached minus detached is the change of membership: for each object a strict
   alternation that starts and ends on the right foot *)
RlogDiff(db, da, e) ==
  IF \A r \in DOMAIN e.rlog :
       LET log == e.rlog[r]
       IN \A x \in DOMAIN da.res :
            LET mine == SelectSeq(log, LAMBDA y : y = x \/ y = -x)
                was == db.res[x] = r
                is == da.res[x] = r
            IN /\ \A k \in 1..Len(mine) : mine[k] = IF (k % 2 = 1) = was THEN -x ELSE x
               /\ (Len(mine) % 2 = 0) = (was = is)
  THEN {} ELSE {"rlog"}

(* observers: attached once each to exactly the tree of their target, and told
   exactly what happens to the objects that are there before and after *)
WatchDiff(before, after, db, da, e) ==
  LET Eb == Edges(before)
      Ea == Edges(after)
      Ok(k) ==
        LET tb == Tree(before, Eb, before.watch[k])
            ta == Tree(after, Ea, after.watch[k])
            att == e.obs.att[k]
            \* with its own target unchanged
            Same == before.watch[k] = after.watch[k]
            \* x did not move, nor anything above it
            Stays(x) ==
              e.op.k # "SetM" /\ \A y \in UpwardVia(db.par, x, 99) : db.par[y] = da.par[y] /\ db.dir[y] = da.dir[y]
            Of(ns, x) == SelectSeq(ns, LAMBDA n : n.n = x)
            Bare1(ns) == [j \in 1..Len(ns) |-> [t |-> ns[j].t, f |-> ns[j].f, pos |-> ns[j].pos, old |-> ns[j].old, new |-> ns[j].new]]
            \* known finding C05-1: one bulk operation takes both an object and
            \* objects below it out of the tree; these (and what is below them)
            \* stay attached
            stale == {y \in Range(e.op.x) : \E x \in Range(e.op.x) :
                        x > 0 /\ y > 0 /\ x # y /\ x \in tb /\ x \in UpwardVia(db.par, y, 99)}
            LeftBehind == /\ e.op.k \in {"AddAll", "InsertAll", "SetM"} /\ stale # {}
                          /\ Len(att) = Cardinality(Range(att)) /\ ta \subseteq Range(att)
                          /\ Range(att) \ ta \subseteq Below(Ea, stale, 99)
        IN IF Range(att) # ta /\ LeftBehind THEN IF Known(3) THEN "stale" ELSE "watch" ELSE IF
           /\ (Len(att) = Cardinality(ta) /\ Range(att) = ta) \/ ~PrintT(ToString(<<"OBSERVER", k, after.watch[k], ta>>))
           /\ (k > 1 /\ Same /\ ~e.quiet) =>
                \A x \in Objs(after) :
                  IF x \in tb \cap ta /\ Stays(x) THEN Bare1(Of(e.seen[k], x)) = Bare1(Of(e.notes, x))
                  ELSE x \notin tb \cup ta => Of(e.seen[k], x) = <<>>
           THEN "ok" ELSE "watch"
  IN (IF after.set = e.obs.set THEN {} ELSE {"watch"}) \cup ({Ok(k) : k \in 1..Len(after.watch)} \ {"ok"})

(* identifiers in resources with managers: the members of a resource and nothing
   else have one, no two the same; who comes back gets the one it had *)
IdsDiff(m, t, d, obs) ==
  IF "rid" \notin DOMAIN obs THEN {}
  ELSE IF \A r \in Ress(t) :
            /\ \A o \in Objs(t) :
                 LET n == obs.rid[r][o] IN
                 /\ (n # 0) = (d.res[o] = r)
                 /\ obs.rfind[r][o] = (IF n # 0 THEN o ELSE 0)
                 /\ n # 0 => IF m[r][o] # 0 THEN n = m[r][o] ELSE n \notin Range(m[r])
            /\ \A o, p \in Objs(t) : o # p /\ obs.rid[r][o] # 0 => obs.rid[r][o] # obs.rid[r][p]
       THEN {} ELSE {"ids"}
(* unloading forgets *)
MemAfter(m, e) ==
  IF "rid" \notin DOMAIN e.obs THEN m
  ELSE [r \in DOMAIN e.obs.rid |-> [o \in DOMAIN e.obs.rid[r] |->
          IF e.ev = "op" /\ e.op.k = "Unload" /\ e.op.o = -r THEN 0
          ELSE IF e.obs.rid[r][o] # 0 \/ m = <<>> THEN e.obs.rid[r][o] ELSE m[r][o]]]

(* ------------------------------------------------------------ addresses *)
(* what address a denotes in state t: the object, or 0 *)
Nth(q, P(_), n) == LET m == SelectSeq(q, P) IN IF n >= 0 /\ n < Len(m) THEN m[n + 1] ELSE 0
Named(t, x, f, n) == f \in DOMAIN t.val[x] /\ t.val[x][f] = (IF n = 0 THEN <<>> ELSE <<n>>)
StepTo(t, d, x, g) ==
  IF x = 0 THEN 0
  ELSE CASE g.k = "f" ->
              IF g.f \notin Range(Hdr.feats[x]) \/ Meta[g.f].attr THEN 0
              ELSE LET v == FullVal(t, d, x, g.f)
                   IN IF Meta[g.f].many THEN (IF g.i >= 0 /\ g.i < Len(v) THEN v[g.i + 1] ELSE 0)
                      ELSE IF g.i = -1 /\ v # <<>> THEN v[1] ELSE 0
         [] g.k = "n" -> Nth(OfFeatures(t, x, IsC), LAMBDA y : Named(t, y, "ENamedElement.name", g.n), g.i)
         [] g.k = "a" -> Nth(OfFeatures(t, x, IsC), LAMBDA y : Named(t, y, "EAnnotation.source", g.n), g.i)
RECURSIVE Steps(_, _, _, _)
Steps(t, d, x, q) == IF q = <<>> THEN x ELSE Steps(t, d, StepTo(t, d, x, q[1]), SubSeq(q, 2, Len(q)))
KeyOf(t, x) == IF "key" \in DOMAIN t.val[x] THEN t.val[x]["key"] ELSE <<>>
ByKey(t, d, r, k) == {x \in Objs(t) : d.res[x] = r /\ KeyOf(t, x) = <<k>>}
Denotes(t, d, a) ==   \* set of possible results
  CASE a.root = -2 -> {0}
    [] a.root = -3 -> LET m == IF a.key = 0 THEN {} ELSE ByKey(t, d, a.r, a.key) IN IF m = {} THEN {0} ELSE m
    [] OTHER -> LET k == IF a.root = -1 THEN 0 ELSE a.root
                IN {Steps(t, d, IF k < Len(t.rc[a.r]) THEN t.rc[a.r][k + 1] ELSE 0, a.segs)}
AddrDiff(t, d, obs) ==
  IF "addr" \notin DOMAIN obs THEN {}
  ELSE LET Shared(x) == KeyOf(t, x) # <<>> /\ Cardinality(ByKey(t, d, d.res[x], KeyOf(t, x)[1])) > 1
           Addressed == {x \in Objs(t) : d.res[x] # 0 /\ ~Shared(x)}
           Ok(x) == LET m == obs.addr[x]
                    IN m.back = x /\ m.back2 = x /\ ("self" \in DOMAIN m => Denotes(t, d, m.self) = {x})
       IN (IF /\ \A x \in Addressed : Ok(x) \/ ~PrintT("LOOKUP " \o ToString(<<i, x>>) \o " " \o ToJson(obs.addr[x]))
              /\ \A x, y \in Addressed : x # y /\ d.res[x] = d.res[y] => obs.addr[x].a # obs.addr[y].a
           THEN {} ELSE {"addr"})
          \cup (IF \A k \in 1..Len(obs.look) :
                   obs.look[k].got \in Denotes(t, d, obs.look[k].a) \/ ~PrintT("LOOKUP " \o ToString(i) \o " " \o ToJson(obs.look[k]) \o " " \o ToString(Denotes(t, d, obs.look[k].a)))
                THEN {} ELSE {"addr"})

(* known finding C06-1: setting the single-valued container end of an object to
   an owner whose displaced content holds the object *)
SwapWithAncestor(d, op) ==
  /\ op.o > 0 /\ op.k = "SetS" /\ op.x # <<>>
  /\ Meta[op.f].container /\ ~Meta[Meta[op.f].opp].many
  /\ LET held == s.val[op.x[1]][Meta[op.f].opp]
     IN held # <<>> /\ held[1] # op.o /\ held[1] \in UpwardVia(d.par, op.o, Cardinality(Objs(s)))

Differs(e, r) ==
  LET db == Derive(s)
      da == Derive(r.s)
      rlog == RlogDiff(db, da, e)
  IN (IF e.ret \in r.rets THEN {} ELSE {"ret"})
     \cup (IF e.op.o > 0 /\ e.op.f # "" /\ Meta[e.op.f].many /\ r.s.val[e.op.o][e.op.f] # e.obs.val[e.op.o][e.op.f] THEN {"ret"} ELSE {})
     \cup IdsDiff(IF e.op.k = "Unload" THEN [mem EXCEPT ![-e.op.o] = [o \in Objs(s) |-> 0]] ELSE mem, r.s, da, e.obs)
     \cup AddrDiff(r.s, da, e.obs) \cup WatchDiff(s, r.s, db, da, e) \cup StateDiff(r.s, da, e.obs) \cup NotesDiff(s, db, e) \cup (IF rlog # {} /\ SwapWithAncestor(db, e.op) /\ Known(2) THEN {} ELSE rlog)

Init == i = 2 /\ mem = <<>> /\ s = [val |-> <<>>, rc |-> <<>>, set |-> <<>>, watch |-> <<>>] /\ skip = FALSE /\ bad = {}
Say(d, e, want) ==
  PrintT(ToString(<<IF d \cap Watch # {} THEN "REJECTED" ELSE "SKIPPED", i, d>>) \o " WANT " \o ToJson(want))
Reset(e) ==
  LET t == StateOf(e.obs)
      d == IF Sound(t) THEN StateDiff(t, Derive(t), e.obs) ELSE {"val", "cont", "opp"}
  IN /\ s' = t
     /\ skip' = (d # {})
     /\ bad' = d \cap Watch
     /\ d # {} => Say(d, e, t)
Op(e) ==
  IF skip THEN UNCHANGED <<s, skip, bad>>
  ELSE LET r == Outcome(s, e.op)
           d == Differs(e, r)
       IN /\ s' = r.s
          /\ skip' = (d # {})
          /\ bad' = d \cap Watch
          /\ d # {} => Say(d, e, r)
Try(e) ==
  IF skip THEN UNCHANGED <<s, skip, bad>>
  ELSE LET r == Outcome(s, e.op)
           d == Differs(e, r)
       IN /\ UNCHANGED <<s, skip>>
          /\ bad' = d \cap Watch
          /\ d # {} => Say(d, e, r)
Count(e) == UNCHANGED <<s, skip, bad>> /\ PrintT("STATES " \o ToString(e.states))
Hang(e) == bad' = (IF skip THEN {} ELSE {"hang"}) /\ UNCHANGED <<s, skip>> /\ PrintT(<<"HANG", i, skip, e>>)
Next == /\ i <= Len(TraceLog)
        /\ i' = i + 1
        /\ LET e == TraceLog[i] IN
             /\ CASE e.ev = "reset" -> Reset(e) [] e.ev = "op" -> Op(e) [] e.ev = "try" -> Try(e) [] e.ev = "count" -> Count(e) [] e.ev = "hang" -> Hang(e)
             /\ mem' = (CASE e.ev = "reset" -> MemAfter(<<>>, e) [] e.ev = "op" -> (IF skip' THEN mem ELSE MemAfter(mem, e)) [] OTHER -> mem)
Spec == Init /\ [][Next]_<<i, s, skip, bad, mem>>
NotBad == bad = {}
SpecSound == skip \/ Sound(s)
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
