-------------------------------- MODULE Meta --------------------------------
(* Metamodels: classes with super types, structural features and operations, *)
(* in a package. Classes are 1..4, features 11..17 (11..13 attributes, the    *)
(* others references), operations 31..34.                                    *)
(* State s: sup, own, ops (sequences, by class), name (of classes), fname,    *)
(* id, cont, der, opp, typ (by feature), oname (by operation), pkg.           *)
(* The derived views are functions of the state alone.                       *)
EXTENDS SeqOps
Cls == 1..4
Fts == 11..17
Ops == 31..34
IsAttr(f) == f <= 13

(* append to q the elements of r that are not in it yet *)
RECURSIVE Join(_, _)
Join(q, r) == IF r = <<>> THEN q ELSE Join(IF In(r[1], q) THEN q ELSE Append(q, r[1]), SubSeq(r, 2, Len(r)))
RECURSIVE JoinOver(_, _, _)
JoinOver(V(_), q, cs) == IF cs = <<>> THEN q ELSE JoinOver(V, Join(q, V(cs[1])), SubSeq(cs, 2, Len(cs)))
RECURSIVE AllSuper(_, _)
AllSuper(s, c) == JoinOver(LAMBDA x : Append(AllSuper(s, x), x), <<>>, s.sup[c])
RECURSIVE AllFeats(_, _)
AllFeats(s, c) == Join(JoinOver(LAMBDA x : AllFeats(s, x), <<>>, s.sup[c]), s.own[c])
RECURSIVE AllOps(_, _)
AllOps(s, c) == Join(JoinOver(LAMBDA x : AllOps(s, x), <<>>, s.sup[c]), s.ops[c])

F(s, k, f) == s[k][f - 10]
IsContainer(s, f) == F(s, "opp", f) # 0 /\ F(s, "cont", F(s, "opp", f))
Attrs(q) == SelectSeq(q, IsAttr)
Refs(q) == SelectSeq(q, LAMBDA f : ~IsAttr(f))
Conts(s, q) == SelectSeq(q, LAMBDA f : ~IsAttr(f) /\ F(s, "cont", f))
XRefs(s, q) == SelectSeq(q, LAMBDA f : ~IsAttr(f) /\ ~F(s, "cont", f) /\ ~IsContainer(s, f))
Plain(s, q) == SelectSeq(q, LAMBDA f : ~F(s, "der", f))
IdAttr(s, q) == LET ids == SelectSeq(q, LAMBDA f : IsAttr(f) /\ F(s, "id", f)) IN IF ids = <<>> THEN 0 ELSE ids[1]
ByName(s, q, n) == {f \in Range(q) : F(s, "fname", f) = n}
Found(set, x) == IF set = {} THEN x = 0 ELSE x \in set

(* o2 overrides o1: same name, declared in a subclass *)
Owner(s, o) == LET cs == {c \in Cls : In(o, s.ops[c])} IN IF cs = {} THEN 0 ELSE CHOOSE c \in cs : TRUE
SuperOf(s, c, d) == c = d \/ In(c, AllSuper(s, d))
Overrides(s, o1, o2) ==
  s.oname[o1 - 30] = s.oname[o2 - 30] /\ Owner(s, o1) # 0 /\ Owner(s, o2) # 0 /\ SuperOf(s, Owner(s, o1), Owner(s, o2))
OverrideSet(s, q, o) ==
  {q[j] : j \in {j \in 1..Len(q) : \E i \in 1..(j - 1) : q[i] = o /\ Overrides(s, o, q[j])}}

(* ------------------------------------------------------------ transitions *)
SetF(s, k, f, v) == [s EXCEPT ![k][f - 10] = v]
(* a feature (operation, class) added to a class (package) leaves the previous one *)
Put(s, k, c, q) ==
  IF k = "pkg" THEN [s EXCEPT !.pkg = q]
  ELSE IF k = "sup" THEN [s EXCEPT !.sup[c] = q]
  ELSE [s EXCEPT ![k] = [d \in Cls |-> IF d = c THEN q ELSE WithoutAll(@[d], Range(q))]]
Outcome(s, op) ==
  LET yes == op.i # 0
      Done(t) == [s |-> t, rets |-> {0}]
  IN CASE op.k = "FName" -> Done(SetF(s, "fname", op.o, op.i))
       [] op.k = "OName" -> Done([s EXCEPT !.oname[op.o - 30] = op.i])
       [] op.k = "CName" -> Done([s EXCEPT !.name[op.o] = op.i])
       [] op.k = "ID" -> Done(SetF(s, "id", op.o, yes))
       [] op.k = "Cont" -> Done(SetF(s, "cont", op.o, yes))
       [] op.k = "Der" -> Done(SetF(s, "der", op.o, yes))
       [] op.k = "Type" -> Done(SetF(s, "typ", op.o, op.i))
       [] op.k = "Opp" -> Done(SetF(SetF(s, "opp", op.o, IF yes THEN op.j ELSE 0), "opp", op.j, IF yes THEN op.o ELSE 0))
       [] OTHER -> LET q == IF op.f = "pkg" THEN s.pkg ELSE s[op.f][op.o]
                       l == ListOp(TRUE, op, q)
                   IN [s |-> IF l.q = q THEN s ELSE Put(s, op.f, op.o, l.q), rets |-> l.rets]

(* -------------------------------------------------------------- the views *)
At(q) == <<0>> \o q \o <<0>>
ViewOK(s, c, k, v) ==
  LET fs == AllFeats(s, c)
      os == AllOps(s, c)
  IN CASE k = "super" -> v = AllSuper(s, c)
       [] k = "feats" -> v = fs
       [] k = "attrs" -> v = Attrs(fs)
       [] k = "refs" -> v = Refs(fs)
       [] k = "conts" -> v = Conts(s, fs)
       [] k = "xrefs" -> v = XRefs(s, fs)
       [] k = "ops" -> v = os
       [] k = "own" -> v = <<Attrs(s.own[c]), Refs(s.own[c])>>
       [] k = "cf" -> v = <<Plain(s, Conts(s, fs)), Plain(s, XRefs(s, fs))>>
       [] k = "id" -> v = IdAttr(s, fs)
       [] k = "name" -> \A n \in 1..Len(v) : Found(ByName(s, fs, n), v[n])
       [] k = "num" -> /\ \A f \in Fts : v[1][f - 10] = IndexOf(fs, f) - 1
                       /\ \A o \in Ops : v[2][o - 30] = IndexOf(os, o) - 1
       [] k = "count" -> v[1] = At(fs) /\ v[2] = At(os)
       [] k = "over" -> \A o \in Ops : Found(OverrideSet(s, os, o), v[o - 30])
       [] k = "is" -> \A d \in Cls : v[d] = SuperOf(s, c, d)
       [] OTHER -> TRUE
LookupOK(s, v) == \A n \in 1..Len(v) : Found({c \in Range(s.pkg) : s.name[c] = n}, v[n])

(* -------------------------------------------------------------- invariants *)
OneOwner(s) == \A k \in {"own", "ops"} : \A c, d \in Cls : c # d => Range(s[k][c]) \cap Range(s[k][d]) = {}
Acyclic(s) == \A c \in Cls : ~In(c, AllSuper(s, c))
Sound(s) == /\ OneOwner(s) /\ Acyclic(s)
            /\ \A c \in Cls : LET fs == AllFeats(s, c)
                              IN /\ NoDup(fs) /\ NoDup(AllSuper(s, c)) /\ NoDup(AllOps(s, c))
                                 /\ Range(fs) = UNION {Range(s.own[d]) : d \in {c} \cup Range(AllSuper(s, c))}
=============================================================================
