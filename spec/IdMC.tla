-------------------------------- MODULE IdMC ---------------------------------
(* The rules of IdMgr.tla at a small bound: the bijection is an invariant,   *)
(* an object that leaves and comes back keeps its identifier, and an         *)
(* identifier is never assigned to a second object unless the caller asks.   *)
EXTENDS IdMgr
CONSTANTS Kind, N, K
VARIABLES s, given   \* given[id]: the object it was automatically assigned to
Obj == 1..N
Ids == 1..K
Ops == {[k |-> k, o |-> o, id |-> 0] : k \in {"Register", "UnRegister"}, o \in Obj}
       \cup {[k |-> k, o |-> o, id |-> i] : k \in IF Kind = "attr" THEN {"SetID", "SetAttr"} ELSE {"SetID"}, o \in Obj, i \in 0..(K \div 2)}
       \cup {[k |-> "Clear", o |-> 1, id |-> 0]}
Init == s = [reg |-> Zero(Obj), det |-> Zero(Obj), val |-> Zero(Obj), used |-> {}] /\ given = [i \in Ids |-> 0]
Next == \E op \in Ops : \E r \in Step(Kind, s, op, Ids) :
          /\ s' = r[2]
          /\ given' = [i \in Ids |-> IF op.k = "Register" /\ Kind # "attr" /\ i \notin s.used /\ s'.reg[op.o] = i THEN op.o ELSE given[i]]
Spec == Init /\ [][Next]_<<s, given>>
Bij == Bijection(s)
Lookup == \A o \in Obj : s.reg[o] # 0 => Owner(s, s.reg[o]) = o
(* steps *)
ComesBack == [][\A o \in Obj : Kind # "attr" /\ s.reg[o] = 0 /\ s.det[o] # 0 /\ ~Taken(s, s.det[o]) /\ s'.reg[o] # 0 /\ s'.reg[o] # s.det[o]
                 => \E i \in 0..(K \div 2) : s'.reg[o] = i]_<<s, given>>
NeverReused == [][\A i \in Ids : given[i] # 0 => given'[i] = given[i]]_<<s, given>>
=============================================================================
