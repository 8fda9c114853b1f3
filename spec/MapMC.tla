-------------------------------- MODULE MapMC --------------------------------
(* Every history of two maps whose entries are objects, small bound: the       *)
(* abstract maps keep one entry per key, one map per entry, and a map is the   *)
(* dictionary that the puts and removals make.                                 *)
EXTENDS Maps, TLC
CONSTANTS NK, NE, NV
VARIABLES s, dict
obj == <<TRUE, TRUE>>
Blank == [x |-> <<>>, i |-> 0, j |-> 0, nk |-> <<>>, nv |-> <<>>, o |-> 1]
Op(k, m) == [Blank EXCEPT !.o = m] @@ [k |-> k]
Ops == UNION {
   {[Op("Put", m) EXCEPT !.i = k, !.j = v] : k \in 1..NK, v \in 1..NV} \cup {[Op("RemoveKey", m) EXCEPT !.i = k] : k \in 1..NK}
   \cup {[Op("Add", m) EXCEPT !.x = <<e>>] : e \in 1..Len(s.K)} \cup {[Op("Insert", m) EXCEPT !.x = <<e>>] : e \in 1..Len(s.K)}
   \cup {[Op("Set", m) EXCEPT !.x = <<e>>] : e \in 1..Len(s.K)} \cup {[Op("RemoveAt", m) EXCEPT !.i = i] : i \in 0..NK}
   \cup {[Op("AddAll", m) EXCEPT !.x = <<e, f>>] : e \in 1..Len(s.K), f \in 1..Len(s.K)}
   \cup {[Op("Move", m) EXCEPT !.i = i] : i \in 0..NK} \cup {Op("Clear", m)} : m \in 1..2}
Init == s = [q |-> <<<<>>, <<>>>>, K |-> <<>>, V |-> <<>>] /\ dict = <<<<>>, <<>>>>
Dict(t, m) == [k \in Keys(t, m) |-> t.V[EntryOf(t, m, k)]]
Next == \E op \in Ops :
  /\ Allowed(s, op)
  /\ LET r == Outcome(s, obj, op)
     IN /\ Len(r.s.K) <= NE /\ s' = r.s
        /\ dict' = [dict EXCEPT ![op.o] =
             CASE op.k = "Put" -> [k \in DOMAIN @ \cup {op.i} |-> IF k = op.i THEN op.j ELSE @[k]]
               [] op.k = "RemoveKey" -> [k \in DOMAIN @ \ {op.i} |-> @[k]]
               [] op.k = "Move" -> @
               [] OTHER -> Dict(r.s, op.o), ![3 - op.o] = Dict(r.s, 3 - op.o)]
Spec == Init /\ [][Next]_<<s, dict>>
Sound == OneEntryPerKey(s) /\ OneMapPerObject(s, obj) /\ \A m \in 1..2 : dict[m] = Dict(s, m)
=============================================================================
