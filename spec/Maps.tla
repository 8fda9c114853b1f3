-------------------------------- MODULE Maps --------------------------------
(* Maps as sequences of entries with at most one entry per key.  Entries are  *)
(* numbered; K[e] and V[e] are the key and the value of entry e (0: no value).*)
(* q[m] is the sequence of entries of map m; obj[m]: its entries are objects, *)
(* contained in the owner of the map, and so in one map at most.              *)
EXTENDS SeqOps

Keys(s, m) == {s.K[e] : e \in Range(s.q[m])}
EntryOf(s, m, k) == CHOOSE e \in Range(s.q[m]) : s.K[e] = k
(* what the reads of map m give, for the keys 1..nk and the values 1..nv *)
ReadMap(s, m, nk, nv) ==
  [size |-> Len(s.q[m]),
   val |-> [k \in 1..nk |-> IF k \in Keys(s, m) THEN s.V[EntryOf(s, m, k)] ELSE 0],
   has |-> [k \in 1..nk |-> Bool01(k \in Keys(s, m))],
   hasv |-> [v \in 1..nv |-> Bool01(\E e \in Range(s.q[m]) : s.V[e] = v)],
   dict |-> [k \in 1..nk |-> IF k \in Keys(s, m) THEN s.V[EntryOf(s, m, k)] ELSE -1]]

(* map m gets the entries q: entries that are objects leave the other maps *)
SetMap(s, obj, m, q) ==
  LET new == Range(q) \ Range(s.q[m])
  IN [s EXCEPT !.q = [n \in 1..Len(s.q) |-> IF n = m THEN q ELSE IF obj[m] /\ obj[n] THEN WithoutAll(s.q[n], new) ELSE s.q[n]]]

Fine(s, r) == [s |-> s, rets |-> {r}]
Outcome(s0, obj, op) ==
  LET m == op.o
      s == [s0 EXCEPT !.K = @ \o op.nk, !.V = @ \o op.nv]     \* the entries the caller made
  IN CASE op.k = "Put" ->
            IF op.i \in Keys(s, m) THEN Fine([s EXCEPT !.V[EntryOf(s, m, op.i)] = op.j], 0)
            ELSE Fine([s EXCEPT !.K = Append(@, op.i), !.V = Append(@, op.j), !.q[m] = Append(@, Len(s.K) + 1)], 0)
       [] op.k = "RemoveKey" ->
            IF op.i \in Keys(s, m)
            THEN LET e == EntryOf(s, m, op.i) IN Fine([s EXCEPT !.q[m] = Without(@, e)], s.V[e])
            ELSE Fine(s, 0)
       [] op.k \in {"Read", "ReadImm", "Spoil"} -> Fine(s, 0)
       [] OTHER -> LET l == ListOp(TRUE, op, s.q[m]) IN [s |-> SetMap(s, obj, m, l.q), rets |-> l.rets]

OneEntryPerKey(s) == \A m \in 1..Len(s.q) : \A a, b \in 1..Len(s.q[m]) : a # b => s.K[s.q[m][a]] # s.K[s.q[m][b]]
OneMapPerObject(s, obj) == \A m, n \in 1..Len(s.q) : m # n /\ obj[m] /\ obj[n] => Range(s.q[m]) \cap Range(s.q[n]) = {}
(* the caller may only add entries with keys that are not in the map *)
Allowed(s0, op) ==
  LET s == [s0 EXCEPT !.K = @ \o op.nk, !.V = @ \o op.nv]
      new == Range(op.x) \ Range(s.q[op.o])
      kept(S) == {s.K[e] : e \in Range(s.q[op.o]) \ S}
  IN CASE op.k \in {"Add", "Insert", "AddAll", "InsertAll"} ->
            /\ \A e \in new : s.K[e] \notin Keys(s, op.o)
            /\ \A a, b \in new : a # b => s.K[a] # s.K[b]
       [] op.k = "Set" -> \A e \in new : op.i \in 0..(Len(s.q[op.o]) - 1) => s.K[e] \notin kept({s.q[op.o][op.i + 1]})
       [] op.k = "SetM" -> \A a, b \in Range(op.x) : a # b => s.K[a] # s.K[b]
       [] OTHER -> TRUE
=============================================================================
