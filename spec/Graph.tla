-------------------------------- MODULE Graph --------------------------------
(* Object graphs: features, containment, opposites and resource membership.  *)
(*                                                                           *)
(* A state is a record s:                                                    *)
(*   s.val[o][f]  the sequence of values of feature f of object o (a single- *)
(*                valued feature holds a sequence of length 0 or 1); features *)
(*                that are the container end of an opposite pair are not in  *)
(*                val, they are derived from the containment end;            *)
(*   s.rc[r]      the sequence of direct contents of resource r.             *)
(*   s.set, s.watch  the resource set and the observers, see below.          *)
(* Everything else - container, containing feature, resource - is derived,   *)
(* so the forest is correct by construction in the specification and the     *)
(* implementation, which stores both ends, has to agree with it.             *)
EXTENDS SeqOps

CONSTANTS Meta    \* feature name -> [attr, many, uniq, cont, container, opp, res]

HasF(s, o, f) == f \in DOMAIN s.val[o]
Objs(s) == DOMAIN s.val
Ress(s) == DOMAIN s.rc

IsLink(f) == ~Meta[f].cont /\ ~Meta[f].container /\ Meta[f].opp # ""

(* ------------------------------------------------------------- derived *)
(* containment edges <<child, parent, feature>> *)
Edges(s) ==
  UNION {UNION {{<<s.val[p][f][k], p, f>> : k \in 1..Len(s.val[p][f])} :
                f \in {g \in DOMAIN s.val[p] : Meta[g].cont}} : p \in Objs(s)}
(* the edge into x, <<parent, feature>>, or NoParent *)
NoParent == <<0, "">>
ParentIn(E, x) ==
  LET c == {e \in E : e[1] = x}
  IN IF c = {} THEN NoParent ELSE LET e == CHOOSE e \in c : TRUE IN <<e[2], e[3]>>
ParentOf(s, x) == ParentIn(Edges(s), x)
HasParent(s, x) == ParentOf(s, x) # NoParent
Direct(s, x) == IF \E r \in Ress(s) : In(x, s.rc[r]) THEN CHOOSE r \in Ress(s) : In(x, s.rc[r]) ELSE 0

(* everything derived from state s, computed once: parent edge, direct resource,
   resource *)
RECURSIVE ResourceVia(_, _, _, _)
ResourceVia(par, dir, x, fuel) ==
  IF dir[x] # 0 THEN dir[x]
  ELSE IF par[x] # NoParent /\ fuel > 0 THEN ResourceVia(par, dir, par[x][1], fuel - 1) ELSE 0
Derive(s) ==
  LET E == Edges(s)
      par == [x \in Objs(s) |-> ParentIn(E, x)]
      dir == [x \in Objs(s) |-> Direct(s, x)]
  IN [par |-> par, dir |-> dir,
      res |-> [x \in Objs(s) |-> ResourceVia(par, dir, x, Cardinality(Objs(s)))]]
(* value of the container-end feature f of x *)
ContainerValue(d, x, f) ==
  IF d.par[x] # NoParent /\ d.par[x][2] = Meta[f].opp THEN <<d.par[x][1]>> ELSE <<>>
FullVal(s, d, x, f) == IF Meta[f].container THEN ContainerValue(d, x, f) ELSE s.val[x][f]
RECURSIVE UpwardVia(_, _, _)
UpwardVia(par, x, fuel) ==
  IF fuel = 0 \/ par[x] = NoParent THEN {x} ELSE {x} \cup UpwardVia(par, par[x][1], fuel - 1)

(* --------------------------------------------------------- effect of edits *)
PutVal(s, o, f, q) == [s EXCEPT !.val[o][f] = q]

(* take x out of its container *)
Cut(s, x) ==
  LET pf == ParentOf(s, x)
  IN IF pf # NoParent THEN PutVal(s, pf[1], pf[2], Without(s.val[pf[1]][pf[2]], x)) ELSE s
(* take x out of the direct contents of whatever resource holds it *)
CutRes(s, x) ==
  IF Direct(s, x) # 0 THEN [s EXCEPT !.rc[Direct(s, x)] = Without(@, x)] ELSE s

RECURSIVE Fold(_, _, _)
Fold(Op(_, _), s, q) == IF q = <<>> THEN s ELSE Fold(Op, Op(s, q[1]), SubSeq(q, 2, Len(q)))

(* feature f of o becomes q, all other ends following *)
AssignCont(s, o, f, q) ==
  LET old == s.val[o][f]
      added == WithoutAll(q, Range(old))
      Release(t, x) == IF Meta[f].res THEN Cut(t, x) ELSE CutRes(Cut(t, x), x)
  IN PutVal(Fold(Release, s, added), o, f, q)

AssignLink(s, o, f, q) ==
  LET g == Meta[f].opp
      old == s.val[o][f]
      added == WithoutAll(q, Range(old))
      removed == WithoutAll(old, Range(q))
      Leave(t, y) == PutVal(t, y, g, Without(t.val[y][g], o))
      Join(t, x) ==
        IF Meta[g].many THEN PutVal(t, x, g, Append(t.val[x][g], o))
        ELSE LET displaced == t.val[x][g]
                 t1 == IF displaced = <<>> THEN t
                       ELSE PutVal(t, displaced[1], f, Without(t.val[displaced[1]][f], x))
             IN PutVal(t1, x, g, <<o>>)
  IN PutVal(Fold(Join, Fold(Leave, s, removed), added), o, f, q)

Assign(s, o, f, q) ==
  IF Meta[f].attr THEN PutVal(s, o, f, q)
  ELSE IF Meta[f].cont THEN AssignCont(s, o, f, q)
  ELSE IF IsLink(f) THEN AssignLink(s, o, f, q)
  ELSE PutVal(s, o, f, q)

(* container end f of o set to xs (length 0 or 1) *)
AssignContainer(s, o, f, xs) ==
  IF xs = <<>> THEN Cut(s, o)
  ELSE LET p == xs[1]
           g == Meta[f].opp
       IN IF In(o, s.val[p][g]) THEN s
          ELSE AssignCont(s, p, g, IF Meta[g].many THEN Append(s.val[p][g], o) ELSE <<o>>)

(* direct contents of resource r become q *)
AssignRc(s, r, q) ==
  LET old == s.rc[r]
      added == WithoutAll(q, Range(old))
      Enter(t, x) ==
        LET t1 == CutRes(t, x)
        IN IF HasParent(t1, x) /\ ~Meta[ParentOf(t1, x)[2]].res THEN Cut(t1, x) ELSE t1
      t == Fold(Enter, s, added)
  IN [t EXCEPT !.rc[r] = q]

(* ------------------------------------------------------------ observers *)
(* s.set: the resources of the resource set (TheSet), s.watch[k]: the target of
   observer k (an object, a resource as a negative number, TheSet, 0 for none).
   An observer is attached to its target and everything contained below it. *)
TheSet == -9
RECURSIVE Below(_, _, _)
Below(E, xs, fuel) ==
  LET n == xs \cup {e[1] : e \in {e \in E : e[2] \in xs}}
  IN IF n = xs \/ fuel = 0 THEN xs ELSE Below(E, n, fuel - 1)
Tree(s, E, target) ==
  IF target = 0 THEN {}
  ELSE IF target > 0 THEN Below(E, {target}, Cardinality(Objs(s)))
  ELSE LET rs == IF target = TheSet THEN {-x : x \in Range(s.set)} ELSE {-target}
           roots == UNION {Range(s.rc[r]) : r \in rs}
       IN {target} \cup {-r : r \in rs} \cup Below(E, roots, Cardinality(Objs(s)))

(* outcome of operation op in state s: [s, rets] *)
RECURSIVE Outcome(_, _)
Outcome(s, op) ==
  IF op.k \in {"Deliver", "Cache"} THEN [s |-> s, rets |-> {0}]
  ELSE IF op.k = "Batch"
  THEN [s |-> Fold(LAMBDA t, sub : Outcome(t, sub).s, s, op.subs), rets |-> {0}]
  ELSE IF op.k = "Out" THEN [s |-> CutRes(Cut(s, op.o), op.o), rets |-> {0}]
  ELSE IF op.k = "Unload" THEN [s |-> AssignRc(s, -op.o, <<>>), rets |-> {0}]
  ELSE IF op.k = "Watch" THEN [s |-> [s EXCEPT !.watch[op.i] = op.o], rets |-> {0}]
  ELSE IF op.o = TheSet
  THEN LET l == ListOp(TRUE, op, s.set) IN [s |-> [s EXCEPT !.set = l.q], rets |-> l.rets]
  ELSE IF op.o < 0
  THEN LET l == ListOp(TRUE, op, s.rc[-op.o])
       IN [s |-> AssignRc(s, -op.o, l.q), rets |-> l.rets]
  ELSE IF Meta[op.f].many
  THEN LET l == ListOp(Meta[op.f].uniq, op, s.val[op.o][op.f])
           \* replacing the whole value: everything leaves, then the new values enter
           from == IF op.k = "SetM" THEN Assign(s, op.o, op.f, <<>>) ELSE s
       IN [s |-> Assign(from, op.o, op.f, l.q), rets |-> l.rets]
  ELSE LET q == IF op.k = "Unset" THEN <<>> ELSE op.x
       IN [s |-> IF Meta[op.f].container THEN AssignContainer(s, op.o, op.f, q)
                 ELSE Assign(s, op.o, op.f, q),
           rets |-> {0}]

(* ------------------------------------------------------------- invariants *)
OneContainer(s) ==
  LET E == Edges(s) IN \A e1, e2 \in E : e1[1] = e2[1] => e1 = e2
NoDuplicates(s) ==
  /\ \A o \in Objs(s) : \A f \in DOMAIN s.val[o] : Meta[f].uniq => NoDup(s.val[o][f])
  /\ \A r \in Ress(s) : NoDup(s.rc[r])
SingleValued(s) ==
  \A o \in Objs(s) : \A f \in DOMAIN s.val[o] : Meta[f].many \/ Len(s.val[o][f]) <= 1
Acyclic(s) ==
  LET par == Derive(s).par
  IN \A x \in Objs(s) : par[x] # NoParent => x \notin UpwardVia(par, par[x][1], Cardinality(Objs(s)))
OppositesAgree(s) ==
  \A o \in Objs(s) : \A f \in DOMAIN s.val[o] :
    IsLink(f) => \A i \in 1..Len(s.val[o][f]) :
       LET x == s.val[o][f][i] IN HasF(s, x, Meta[f].opp) /\ In(o, s.val[x][Meta[f].opp])
OneDirectResource(s) ==
  \A x \in Objs(s) : Cardinality({r \in Ress(s) : In(x, s.rc[r])}) <= 1
ResourceOrContainer(s) ==   \* a direct content is contained only through a proxy-resolving feature
  \A e \in Edges(s) : Direct(s, e[1]) # 0 => Meta[e[3]].res
Sound(s) == /\ OneContainer(s) /\ NoDuplicates(s) /\ SingleValued(s) /\ Acyclic(s)
            /\ OppositesAgree(s) /\ OneDirectResource(s) /\ ResourceOrContainer(s)
=============================================================================
