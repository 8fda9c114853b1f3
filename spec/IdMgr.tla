-------------------------------- MODULE IdMgr --------------------------------
(* Identifier managers: the relation between registered objects and their    *)
(* identifiers.                                                              *)
(*                                                                           *)
(* A state is [reg, det, used, val]:                                         *)
(*   reg[o]  identifier of o, 0 when o is not registered                     *)
(*   det[o]  identifier remembered for an object that left, or 0             *)
(*   used    every identifier that was ever seen                             *)
(*   val[o]  the identifying attribute of o (managers over attributes only)  *)
(* Step(kind, t, op) is the relation between state and successor, as the set *)
(* of <<result, successor>> within the identifiers ids (a fresh identifier   *)
(* has no predetermined value: any unused one).                              *)
EXTENDS Integers, Sequences, FiniteSets

Zero(O) == [o \in O |-> 0]
Owner(t, id) == IF \E o \in DOMAIN t.reg : t.reg[o] = id THEN CHOOSE o \in DOMAIN t.reg : t.reg[o] = id ELSE 0
Taken(t, id) == id # 0 /\ Owner(t, id) # 0

(* o gets id; whoever had it before does not have it any more *)
Give(t, o, id) ==
  [t EXCEPT !.reg = [p \in DOMAIN t.reg |-> IF p = o THEN id ELSE IF id # 0 /\ t.reg[p] = id THEN 0 ELSE t.reg[p]],
            !.used = @ \cup ({id} \ {0})]
Same(t, ret) == {<<ret, t>>}

(* managers that assign identifiers themselves *)
AutoStep(t, op, ids) ==
  LET o == op.o IN
  CASE op.k = "Register" ->
         IF t.reg[o] # 0 THEN Same(t, 0)
         ELSE IF t.det[o] # 0 /\ ~Taken(t, t.det[o])
         THEN {<<0, [Give(t, o, t.det[o]) EXCEPT !.det[o] = 0]>>}
         ELSE {<<0, [Give(t, o, n) EXCEPT !.det[o] = 0]>> : n \in ids \ (t.used \cup {0})}
    [] op.k = "UnRegister" ->
         IF t.reg[o] = 0 THEN Same(t, 0)
         ELSE {<<0, [t EXCEPT !.reg[o] = 0, !.det[o] = t.reg[o]]>>}
    [] op.k = "SetID" ->   \* op.id: the identifier, 0 none, -1 not an identifier at all
         IF op.id = -1 THEN Same(t, 1)
         ELSE LET p == IF op.id = 0 THEN 0 ELSE Owner(t, op.id)
              IN {<<0, [Give(t, o, op.id) EXCEPT !.det = d]>> :
                    \* whether an assigned object is still remembered under its old identifier is free
                    d \in {t.det, [t.det EXCEPT ![o] = 0]}}
                 \* an identifier in use may be refused instead
                 \cup (IF p \notin {0, o} THEN Same(t, 1) ELSE {})
    [] op.k = "Clear" -> {<<0, [t EXCEPT !.reg = Zero(DOMAIN t.reg), !.det = Zero(DOMAIN t.reg)]>>}
    [] op.k = "GetID" -> Same(t, t.reg[o])
    [] op.k = "GetDetachedID" -> Same(t, t.det[o])
    [] op.k = "GetEObject" -> Same(t, IF op.id < 1 THEN 0 ELSE Owner(t, op.id))

(* managers over an identifying attribute *)
AttrStep(t, op) ==
  LET o == op.o IN
  CASE op.k = "Register" -> IF t.val[o] = 0 THEN Same(t, 0) ELSE {<<0, Give(t, o, t.val[o])>>}
    [] op.k = "UnRegister" -> {<<0, [t EXCEPT !.reg[o] = 0]>>}
    [] op.k = "SetID" -> IF op.id = -1 THEN Same(t, 1) ELSE {<<0, [Give(t, o, op.id) EXCEPT !.val[o] = op.id]>>}
    [] op.k = "SetAttr" -> {<<0, [t EXCEPT !.val[o] = op.id]>>}
    [] op.k = "Clear" -> {<<0, [t EXCEPT !.reg = Zero(DOMAIN t.reg)]>>}
    [] op.k = "GetID" -> Same(t, t.reg[o])
    [] op.k = "GetDetachedID" -> Same(t, t.val[o])
    [] op.k = "GetEObject" -> Same(t, IF op.id < 1 THEN 0 ELSE Owner(t, op.id))

Step(kind, t, op, ids) == IF kind = "attr" THEN AttrStep(t, op) ELSE AutoStep(t, op, ids)

(* ------------------------------------------------------------ invariants *)
Bijection(t) == \A o, p \in DOMAIN t.reg : o # p /\ t.reg[o] # 0 => t.reg[o] # t.reg[p]
=============================================================================
