------------------------------- MODULE StoreMC -------------------------------
(* A list of Store.tla, kept as the database keeps it: a set of rows with an   *)
(* ordering key.  An inserted row gets a key between the keys of its           *)
(* neighbours; when there is none left, the rows are numbered again.  Keys are *)
(* multiples of 1/SCALE.  Every history, small bound: the rows in the order of *)
(* their keys are the list.                                                    *)
EXTENDS Store, TLC, FiniteSets, SequencesExt
CONSTANTS SCALE, NX, NLEN, NKEY
VARIABLES rows, q
m == [many |-> <<TRUE>>, ref |-> <<FALSE>>]
Sorted(R) == SortSeq(SetToSeq(R), LAMBDA a, b : a.k < b.k)
Numbered(R) == LET S == Sorted(R) IN {[x |-> S[n].x, k |-> n * SCALE] : n \in 1..Len(S)}
(* keys of nb rows inserted at index i: <<first, increment, whether there is room>> *)
Room(R, i, nb) ==
  LET S == Sorted(R)
      lo == IF i = 0 THEN 0 ELSE S[i].k
  IN IF i = Len(S) THEN <<lo + SCALE, SCALE, TRUE>>
     ELSE LET inc == (S[i + 1].k - lo) \div (nb + 1) IN <<lo + inc, inc, inc > 0>>
(* the rows, numbered again if need be, and the keys *)
Place(R, i, nb) == LET r == Room(R, i, nb) IN IF r[3] THEN <<R, r>> ELSE <<Numbered(R), Room(Numbered(R), i, nb)>>
Ops ==
  LET n == Len(q)
      op(k) == [k |-> k, o |-> 1, f |-> 1, i |-> 0, j |-> 0, x |-> <<>>, r |-> FALSE]
  IN {[op("Add") EXCEPT !.i = i, !.x = <<x>>] : i \in 0..n, x \in 1..NX}
     \cup {[op("AddAll") EXCEPT !.i = i, !.x = <<x, y>>] : i \in 0..n, x \in 1..NX, y \in 1..NX}
     \cup {[op("Remove") EXCEPT !.i = i] : i \in 0..(n - 1)}
     \cup {[op("Set") EXCEPT !.i = i, !.x = <<x>>] : i \in 0..(n - 1), x \in 1..NX}
     \cup {[op("Move") EXCEPT !.i = i, !.j = j] : i \in 0..(n - 1), j \in 0..(n - 1)} \cup {op("Clear")}
NextRows(op) ==
  CASE op.k \in {"Add", "AddAll"} ->
         LET p == Place(rows, op.i, Len(op.x)) IN p[1] \cup {[x |-> op.x[c], k |-> p[2][1] + (c - 1) * p[2][2]] : c \in 1..Len(op.x)}
    [] op.k = "Remove" -> rows \ {Sorted(rows)[op.i + 1]}
    [] op.k = "Set" -> LET r == Sorted(rows)[op.i + 1] IN (rows \ {r}) \cup {[r EXCEPT !.x = op.x[1]]}
    [] op.k = "Move" ->
         LET p == Place(rows, IF op.j > op.i THEN op.j + 1 ELSE op.j, 1)
             r == Sorted(p[1])[op.i + 1]
         IN (p[1] \ {r}) \cup {[r EXCEPT !.k = p[2][1]]}
    [] op.k = "Clear" -> {}
Init == rows = {} /\ q = <<>>
Next == \E op \in Ops : Len(Written(m, q, op)) <= NLEN /\ q' = Written(m, q, op) /\ rows' = NextRows(op)
Spec == Init /\ [][Next]_<<rows, q>>
Bound == \A r \in rows : r.k <= NKEY * SCALE
Refines == /\ Cardinality({r.k : r \in rows}) = Len(q)
           /\ LET S == Sorted(rows) IN Len(S) = Len(q) /\ \A n \in 1..Len(q) : S[n].x = q[n]
=============================================================================
