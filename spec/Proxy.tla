------------------------------- MODULE Proxy --------------------------------
(* Proxies: references that hold the address of an object, and the reads that *)
(* put the object in their place.  A world w (constant during a history) has  *)
(*   prox[x]   [d, t]: object x is a proxy for the object t of document d;    *)
(*             t = 0: the document has no such object; d = 0: no proxy        *)
(*   feats[o]  the features of owner o: [many, res, cont]                     *)
(*   in[o]     owner o is in a resource set                                   *)
(* and a state s has                                                          *)
(*   val[o][f] the raw values of feature f of owner o, in order               *)
(*   stat[d]   document d in the resource set: 0 absent, 1 present and not    *)
(*             loaded, 2 loaded                                               *)
(*   avail[d]  the document can be read now                                   *)
EXTENDS SeqOps
RESOLVE == 8

IsProxy(w, x) == x > 0 /\ w.prox[x].d # 0
Usable(s, d) == s.stat[d] = 2 \/ s.avail[d]
(* where the address of x leads in the end, and the documents on the way *)
RECURSIVE Full(_, _, _)
Full(w, s, x) == IF IsProxy(w, x) /\ w.prox[x].t # 0 /\ Usable(s, w.prox[x].d) THEN Full(w, s, w.prox[x].t) ELSE x
RECURSIVE Seen(_, _, _)
Seen(w, s, x) == IF ~IsProxy(w, x) THEN {}
                 ELSE {w.prox[x].d} \cup IF w.prox[x].t # 0 /\ Usable(s, w.prox[x].d) THEN Seen(w, s, w.prox[x].t) ELSE {}
(* what a resolving read of x by owner o may leave in its place: an address   *)
(* that leads to another one that leads nowhere may be followed half way      *)
Places(w, s, o, x) == IF ~w.in[o] THEN {x}
                      ELSE LET y == Full(w, s, x) IN IF IsProxy(w, y) THEN {x, y} ELSE {y}
End(w, s, o, x) == IF w.in[o] THEN Full(w, s, x) ELSE x
Docs(w, s, o, x) == IF w.in[o] THEN Seen(w, s, x) ELSE {}
After(s, d) == IF Usable(s, d) THEN 2 ELSE 1

(* positions P of values q of owner o were read with resolution, giving r *)
Resolved(w, s, o, q, P, r) ==
  /\ Len(r) = Len(q)
  /\ \A i \in 1..Len(q) : IF i \in P THEN r[i] \in Places(w, s, o, q[i]) ELSE r[i] = q[i]
Changed(q, r) == {i \in 1..Len(q) : r[i] # q[i]}
(* notifications: one for each replacement *)
NotesOf(f, q, r, many) == {[t |-> RESOLVE, f |-> f, o |-> q[i], n |-> r[i], p |-> IF many THEN i - 1 ELSE -1] : i \in Changed(q, r)}
(* documents after reading positions P, and no more than P *)
Loads(w, s, o, q, P) == UNION {Docs(w, s, o, q[i]) : i \in P}

(* edits: some positions may have been resolved first; membership is by identity *)
(* or by where an address leads                                                  *)
Holds(w, s, o, q, x) == In(x, q) \/ \E i \in 1..Len(q) : End(w, s, o, q[i]) = x
With(w, s, o, q, S) == [i \in 1..Len(q) |-> IF i \in S THEN End(w, s, o, q[i]) ELSE q[i]]
Edits(w, s, o, op, q) ==
  {[S |-> S, l |-> ListOp(TRUE, op, With(w, s, o, q, S))] :
     S \in {S \in SUBSET {i \in 1..Len(q) : End(w, s, o, q[i]) # q[i]} :
              \A k \in 1..Len(op.x) : In(op.x[k], With(w, s, o, q, S)) = Holds(w, s, o, q, op.x[k])}}
  \cup IF op.k \in {"Insert", "InsertAll", "Set"} /\ (op.i < 0 \/ op.i > Len(q) \/ (op.k = "Set" /\ op.i = Len(q)))
       THEN {[S |-> {}, l |-> Refuse(q)]} ELSE {}
(* who contains x: the owner that holds it in a containment feature *)
Container(w, s, x) ==
  LET H == {o \in 1..Len(w.feats) : \E f \in 1..Len(w.feats[o]) : w.feats[o][f].cont /\ In(x, s.val[o][f])}
  IN IF H = {} THEN 0 ELSE CHOOSE o \in H : TRUE
=============================================================================
