------------------------------- MODULE SeqOps -------------------------------
(* Sequences as lists: the abstract meaning of every list operation.         *)
(* Indexes of the operations are 0-based, as in the API; TLA+ sequences are  *)
(* 1-based.  An operation is a record [k, i, j, x]; its meaning on sequence  *)
(* q of a list that is unique iff uniq is the record [q, ret, rets]: the new *)
(* sequence and the set of return values a correct implementation may give.  *)
(* REFUSED is the outcome of an operation that is refused.                   *)
EXTENDS Integers, Sequences, FiniteSets

REFUSED == -999

Range(q) == {q[i] : i \in 1..Len(q)}
In(x, q) == \E i \in 1..Len(q) : q[i] = x
IndexOf(q, x) == IF In(x, q) THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i-1) : q[j] # x ELSE 0
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
WithoutAll(q, X) == SelectSeq(q, LAMBDA y : y \notin X)
NoDup(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
(* insertion of sequence xs so that its first element gets 0-based index i *)
InsertSeq(q, i, xs) == SubSeq(q, 1, i) \o xs \o SubSeq(q, i + 1, Len(q))
(* removal of the element at 0-based index i *)
DeleteAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
(* removal of the 0-based range [i, j) *)
DeleteRange(q, i, j) == SubSeq(q, 1, i) \o SubSeq(q, j + 1, Len(q))
(* move from 0-based i to 0-based j *)
MoveIn(q, i, j) == InsertSeq(DeleteAt(q, i), j, <<q[i + 1]>>)
(* xs without repetitions (first occurrences) and without the elements of q *)
RECURSIVE Fresh(_, _)
Fresh(q, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE LET r == Fresh(q, SubSeq(xs, 1, Len(xs) - 1))
           x == xs[Len(xs)]
       IN IF In(x, q) \/ In(x, r) THEN r ELSE Append(r, x)

Bool01(b) == IF b THEN 1 ELSE 0
Refuse(q) == [q |-> q, rets |-> {REFUSED}]
Did(q, r) == [q |-> q, rets |-> {r}]

ListOp(uniq, op, q) ==
  LET n == Len(q)
      x == op.x[1]
  IN CASE op.k = "Add" ->
            IF uniq /\ In(x, q) THEN Did(q, 0) ELSE Did(Append(q, x), 1)
       [] op.k = "Insert" ->
            IF op.i < 0 \/ op.i > n THEN Refuse(q)
            ELSE IF uniq /\ In(x, q) THEN Did(q, 0) ELSE Did(InsertSeq(q, op.i, <<x>>), 1)
       [] op.k = "AddAll" ->
            LET xs == IF uniq THEN Fresh(q, op.x) ELSE op.x
            IN [q |-> q \o xs, rets |-> IF xs # <<>> THEN {1} ELSE IF uniq THEN {0} ELSE {0, 1}]
       [] op.k = "InsertAll" ->
            IF op.i < 0 \/ op.i > n THEN Refuse(q)
            ELSE LET xs == IF uniq THEN Fresh(q, op.x) ELSE op.x
                 IN [q |-> InsertSeq(q, op.i, xs), rets |-> IF xs # <<>> THEN {1} ELSE IF uniq THEN {0} ELSE {0, 1}]
       [] op.k = "Remove" ->
            IF In(x, q) THEN Did(DeleteAt(q, IndexOf(q, x) - 1), 1) ELSE Did(q, 0)
       [] op.k = "RemoveAt" ->
            IF op.i < 0 \/ op.i >= n THEN Refuse(q) ELSE Did(DeleteAt(q, op.i), q[op.i + 1])
       [] op.k = "RemoveRange" ->
            IF op.i < 0 \/ op.i >= n \/ op.j < 0 \/ op.j > n \/ op.i > op.j
            THEN [q |-> q, rets |-> IF op.i = n /\ op.j = n THEN {REFUSED, 0} ELSE {REFUSED}]
            ELSE Did(DeleteRange(q, op.i, op.j), 0)
       [] op.k = "RemoveAll" ->
            LET r == WithoutAll(q, Range(op.x)) IN Did(r, Bool01(r # q))
       [] op.k = "Set" ->
            IF op.i < 0 \/ op.i >= n \/ (uniq /\ In(x, q) /\ q[op.i + 1] # x) THEN Refuse(q)
            ELSE Did([q EXCEPT ![op.i + 1] = x], q[op.i + 1])
       [] op.k = "Move" ->
            IF op.i < 0 \/ op.i >= n \/ op.j < 0 \/ op.j >= n THEN Refuse(q)
            ELSE Did(MoveIn(q, op.i, op.j), q[op.i + 1])
       [] op.k = "MoveObject" ->
            IF ~In(x, q) \/ op.i < 0 \/ op.i >= n THEN Refuse(q)
            ELSE Did(MoveIn(q, IndexOf(q, x) - 1, op.i), 0)
       [] op.k = "Clear" -> Did(<<>>, 0)
       [] op.k = "Unset" -> Did(<<>>, 0)
       [] op.k = "SetM" -> Did(IF uniq THEN Fresh(<<>>, op.x) ELSE op.x, 0)

=============================================================================
