-------------------------------- MODULE Store --------------------------------
(* A store of the values of objects.  s.v[o][f] is the value of feature f of   *)
(* object o: a sequence, of length 1 for a single valued feature (0: the       *)
(* default value, or no object).  s.known[o]: the store has met object o; the  *)
(* values that o had in memory until then are its values from then on.         *)
(* s.cont[o]: its container and the feature of the container (<<0, 0>>: none). *)
(* s.roots: the roots, in order.                                               *)
(* An operation is [k, o, f, i, j, x, r]: kind, object, feature, two indexes,  *)
(* values, whether the caller wants the old value.  m.many, m.ref: the kind of *)
(* every feature.                                                              *)
EXTENDS SeqOps

Objects(m, op) ==
  {op.o} \cup (IF op.k = "SetContainer" THEN {op.i} ELSE {})
         \cup (IF op.k \in {"Set", "Add", "AddAll"} /\ m.ref[op.f] THEN Range(op.x) ELSE {})
Meets(m, s, op) == [s EXCEPT !.known = [o \in DOMAIN @ |-> @[o] \/ o \in Objects(m, op)]]
Blank(m, f) == IF m.many[f] THEN <<>> ELSE <<0>>
LastIndexOf(q, x) == IF In(x, q) THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in (i + 1)..Len(q) : q[j] # x ELSE 0
B(b) == <<IF b THEN 1 ELSE 0>>

Writes == {"Set", "UnSet", "Add", "AddAll", "Remove", "Move", "Clear", "SetContainer", "AddRoot", "RemoveRoot"}
(* what the store shows of feature f of object o *)
Val(m, s, o, f) == IF s.known[o] THEN s.v[o][f] ELSE Blank(m, f)

(* the value of the feature after a write *)
Written(m, q, op) ==
  CASE op.k = "Set" -> [q EXCEPT ![IF m.many[op.f] THEN op.i + 1 ELSE 1] = op.x[1]]
    [] op.k = "Add" -> InsertSeq(q, op.i, op.x)
    [] op.k = "AddAll" -> InsertSeq(q, op.i, op.x)
    [] op.k = "Remove" -> DeleteAt(q, op.i)
    [] op.k = "Move" -> MoveIn(q, op.i, op.j)
    [] op.k \in {"UnSet", "Clear"} -> Blank(m, op.f)
Old(m, q, op) ==
  CASE op.k \in {"Set", "Remove", "Move"} -> IF m.many[op.f] THEN <<q[op.i + 1]>> ELSE q
    [] OTHER -> <<>>

(* the operation is one a caller may make *)
Legal(m, s, op) ==
  LET q == s.v[op.o][op.f]
  IN CASE op.k \in {"Add", "AddAll"} -> op.i \in 0..Len(q)
       [] op.k \in {"Remove", "At"} -> op.i \in 0..(Len(q) - 1)
       [] op.k = "Set" -> ~m.many[op.f] \/ op.i \in 0..(Len(q) - 1)
       [] op.k = "Move" -> op.i \in 0..(Len(q) - 1) /\ op.j \in 0..(Len(q) - 1)
       [] OTHER -> TRUE

(* <<result, state>> of an operation *)
Apply(m, s0, op) ==
  IF op.k \in Writes
  THEN LET s == Meets(m, s0, op)
       IN CASE op.k = "SetContainer" -> <<<<>>, [s EXCEPT !.cont[op.o] = <<op.i, op.f>>]>>
            [] op.k = "AddRoot" -> <<<<>>, [s EXCEPT !.roots = Append(@, op.o)]>>
            [] op.k = "RemoveRoot" -> <<<<>>, [s EXCEPT !.roots = Without(@, op.o)]>>
            [] OTHER -> LET q == s.v[op.o][op.f]
                        IN <<IF op.r THEN Old(m, q, op) ELSE <<>>, [s EXCEPT !.v[op.o][op.f] = Written(m, q, op)]>>
  ELSE LET q == Val(m, s0, op.o, op.f)
           r == CASE op.k = "Get" -> q
                  [] op.k = "At" -> <<q[op.i + 1]>>
                  [] op.k = "All" -> q
                  [] op.k = "IsSet" -> B(q # Blank(m, op.f))
                  [] op.k = "Size" -> <<Len(q)>>
                  [] op.k = "IsEmpty" -> B(q = <<>>)
                  [] op.k = "Contains" -> B(In(op.x[1], q))
                  [] op.k = "IndexOf" -> <<IndexOf(q, op.x[1]) - 1>>
                  [] op.k = "LastIndexOf" -> <<LastIndexOf(q, op.x[1]) - 1>>
                  [] op.k = "GetContainer" -> IF s0.known[op.o] THEN s0.cont[op.o] ELSE <<0, 0>>
                  [] op.k = "GetRoots" -> s0.roots
                  \* operations that fail: they change nothing; nor does forgetting an object that has its database identifier
                  [] op.k = "BadAdd" -> <<>>
                  [] op.k = "UnRegister" -> <<>>
                  [] op.k = "BadQuery" -> <<1>>
       IN <<r, s0>>
=============================================================================
