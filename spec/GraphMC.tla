------------------------------- MODULE GraphMC -------------------------------
(* Exhaustive exploration of Graph.tla at a small bound: every history of    *)
(* edits over NObj objects and NRes resources with the features of one of    *)
(* the feature sets below. The same bound is explored on the implementation  *)
(* by the driver scenario "graphx", whose number of states has to agree.     *)
EXTENDS Graph, TLC
CONSTANTS NObj, NRes, Edited, Set

F(attr, many, uniq, cont, container, o, res) ==
  [attr |-> attr, many |-> many, uniq |-> uniq, cont |-> cont, container |-> container, opp |-> o, res |-> res]
AllFeatures ==
  [kids |-> F(FALSE, TRUE, TRUE, TRUE, FALSE, "", FALSE),
   kid |-> F(FALSE, FALSE, TRUE, TRUE, FALSE, "", FALSE),
   subs |-> F(FALSE, TRUE, TRUE, TRUE, FALSE, "owner", FALSE),
   owner |-> F(FALSE, FALSE, TRUE, FALSE, TRUE, "subs", FALSE),
   sub |-> F(FALSE, FALSE, TRUE, TRUE, FALSE, "holder", FALSE),
   holder |-> F(FALSE, FALSE, TRUE, FALSE, TRUE, "sub", FALSE),
   rkids |-> F(FALSE, TRUE, TRUE, TRUE, FALSE, "", TRUE),
   rkid |-> F(FALSE, FALSE, TRUE, TRUE, FALSE, "", TRUE),
   members |-> F(FALSE, TRUE, TRUE, FALSE, FALSE, "group", FALSE),
   group |-> F(FALSE, FALSE, TRUE, FALSE, FALSE, "members", FALSE),
   next |-> F(FALSE, FALSE, TRUE, FALSE, FALSE, "prev", FALSE),
   prev |-> F(FALSE, FALSE, TRUE, FALSE, FALSE, "next", FALSE),
   likes |-> F(FALSE, TRUE, TRUE, FALSE, FALSE, "likedBy", FALSE),
   likedBy |-> F(FALSE, TRUE, TRUE, FALSE, FALSE, "likes", FALSE),
   links |-> F(FALSE, TRUE, TRUE, FALSE, FALSE, "", FALSE),
   tags |-> F(TRUE, TRUE, TRUE, FALSE, FALSE, "", FALSE),
   vals |-> F(TRUE, TRUE, FALSE, FALSE, FALSE, "", FALSE)]
Sets == [tree |-> {"kids", "subs", "owner", "kid"},
         single |-> {"kid", "sub", "holder"},
         res |-> {"kids", "rkids"},
         group |-> {"members", "group"},
         chain |-> {"next", "prev"},
         likes |-> {"likes", "likedBy"},
         list |-> {"links"}, lists |-> {"links", "tags"},
         bag |-> {"vals"}]
MCMeta == [f \in Sets[Set] |-> AllFeatures[f]]

VARIABLE s
Bare0 == {f \in Sets[Set] : ~AllFeatures[f].container}
Init == s = [val |-> [o \in 1..NObj |-> [f \in Bare0 |-> <<>>]], rc |-> [r \in 1..NRes |-> <<>>]]

MaxBag == 3
Values(o, f) ==
  IF Meta[f].attr THEN {101, 102, 103}
  ELSE LET d == Derive(s)
       IN {x \in 1..NObj :
             /\ Meta[f].cont => x \notin UpwardVia(d.par, o, NObj)
             /\ Meta[f].container => o \notin UpwardVia(d.par, x, NObj)}
O(k, o, f, i, j, x) == [k |-> k, o |-> o, f |-> f, i |-> i, j |-> j, x |-> x]
ListOps(o, f, q, vs) ==
  LET n == Len(q)
      room == f = "" \/ Meta[f].uniq \/ n < MaxBag
  IN (IF room THEN {O("Add", o, f, 0, 0, <<x>>) : x \in vs} \cup {O("Insert", o, f, i, 0, <<x>>) : x \in vs, i \in 0..n} ELSE {})
     \cup (IF room /\ (f = "" \/ Meta[f].uniq \/ n < MaxBag - 1)
           THEN {O("AddAll", o, f, 0, 0, <<x, y>>) : x \in vs, y \in vs}
                \cup {O("InsertAll", o, f, i, 0, <<x, y>>) : x \in vs, y \in vs, i \in 0..n} ELSE {})
     \cup {O("Remove", o, f, 0, 0, <<x>>) : x \in vs}
     \cup {O("RemoveAt", o, f, i, 0, <<>>) : i \in 0..(n - 1)}
     \cup {O("RemoveRange", o, f, i, j, <<>>) : i \in 0..(n - 1), j \in 0..n}
     \cup {O("RemoveAll", o, f, 0, 0, <<x, y>>) : x \in vs, y \in vs}
     \cup {O("Set", o, f, i, 0, <<x>>) : i \in 0..(n - 1), x \in vs}
     \cup {O("Move", o, f, i, j, <<>>) : i \in 0..(n - 1), j \in 0..n}
     \cup {O("MoveObject", o, f, i, 0, <<x>>) : i \in 0..(n - 1), x \in vs}
     \cup {O("Clear", o, f, 0, 0, <<>>)}
Ops == UNION {UNION {
         IF Meta[f].many
         THEN ListOps(o, f, s.val[o][f], Values(o, f)) \cup {O("Unset", o, f, 0, 0, <<>>)}
              \cup (IF Meta[f].uniq THEN {} ELSE {O("SetM", o, f, 0, 0, <<101, 101>>)})
         ELSE {O("SetS", o, f, 0, 0, <<x>>) : x \in Values(o, f)} \cup {O("SetS", o, f, 0, 0, <<>>), O("Unset", o, f, 0, 0, <<>>)}
         : f \in Sets[Set]} : o \in 1..Edited}
       \cup UNION {ListOps(-r, "", s.rc[r], 1..NObj) : r \in 1..NRes}
Next == \E op \in Ops : s' = Outcome(s, op).s
Spec == Init /\ [][Next]_s
Inv == Sound(s)
(* an edit changes containment only where its own object, its values and their
   former owners are concerned: everything else keeps its value *)
Frame == [][\E op \in Ops : /\ s' = Outcome(s, op).s
                            /\ \A r \in Outcome(s, op).rets : r = REFUSED => s' = s]_s
=============================================================================
