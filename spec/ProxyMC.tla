------------------------------ MODULE ProxyMC -------------------------------
(* Every history of an owner whose references hold addresses, small bound:     *)
(* what reads promise follows from Proxy.tla.                                   *)
EXTENDS Proxy, TLC
CONSTANTS Max, In0
VARIABLES s
\* 1, 2 targets; 3 leads to 1 in document 1, 4 to 2 in document 2, 5 to 4 in document 1; 6 leads nowhere
W == [prox |-> <<[d |-> 0, t |-> 0], [d |-> 0, t |-> 0], [d |-> 1, t |-> 1], [d |-> 2, t |-> 2], [d |-> 1, t |-> 4], [d |-> 2, t |-> 0]>>,
      feats |-> <<<<[many |-> TRUE, res |-> TRUE, cont |-> FALSE], [many |-> TRUE, res |-> FALSE, cont |-> FALSE]>>>>, in |-> <<In0>>]
All == 1..6
Leads(x) == Full(W, [stat |-> <<2, 2>>, avail |-> <<TRUE, TRUE>>], x)
Fits(q) == \A i, j \in 1..Len(q) : i # j => Leads(q[i]) # Leads(q[j])
Base == [x |-> <<>>, i |-> 0, j |-> 0]
Ops(q) == {[[Base EXCEPT !.i = i] EXCEPT !.x = <<x>>] @@ [k |-> k] : k \in {"Add", "Insert", "Set", "Remove"}, i \in 0..Len(q), x \in All}
          \cup {[Base EXCEPT !.i = i] @@ [k |-> "RemoveAt"] : i \in 0..Len(q)}
          \cup {[[Base EXCEPT !.i = i] EXCEPT !.j = j] @@ [k |-> "Move"] : i, j \in 0..Len(q)}
ReadTo(t, f, P) ==
  LET q == t.val[1][f]
      Q == IF W.feats[1][f].res THEN P ELSE {}
      d0 == Loads(W, t, 1, q, Q)
  IN {[t EXCEPT !.val[1][f] = r, !.stat = [d \in DOMAIN @ |-> IF d \in d0 THEN After(t, d) ELSE @[d]]] :
        r \in {r \in [1..Len(q) -> All] : Resolved(W, t, 1, q, Q, r)}}
Init == s = [val |-> <<<<<<>>, <<>>>>>>, stat |-> <<0, 0>>, avail |-> <<FALSE, TRUE>>]
Next == \/ \E d \in 1..2, b \in BOOLEAN : s' = [s EXCEPT !.avail[d] = b]
        \/ \E f \in 1..2 : \E P \in SUBSET (1..Len(s.val[1][f])) : s' \in ReadTo(s, f, P)
        \/ \E f \in 1..2 : \E op \in Ops(s.val[1][f]) :
             \E e \in Edits(IF W.feats[1][f].res THEN W ELSE [W EXCEPT !.in = <<FALSE>>], s, 1, op, s.val[1][f]) :
               /\ Len(e.l.q) <= (IF f = 1 THEN Max ELSE 1) /\ Fits(e.l.q)
               /\ LET ld == Loads(W, s, 1, s.val[1][f], e.S)
                  IN s' = [s EXCEPT !.val[1][f] = e.l.q, !.stat = [d \in DOMAIN @ |-> IF d \in ld THEN After(s, d) ELSE @[d]]]
Spec == Init /\ [][Next]_s

Q(t) == t.val[1][1]
Full1(t) == ReadTo(t, 1, 1..Len(Q(t)))
(* a reference that does not resolve never loads or changes anything *)
Plain == ReadTo(s, 2, 1..Len(s.val[1][2])) = {s}
(* outside of a resource set addresses stay *)
Outside == ~In0 => Full1(s) = {s}
(* every position is what it was or where it leads, and what leads nowhere stays *)
InPlace == \A t \in Full1(s) : Len(Q(t)) = Len(Q(s)) /\ \A i \in 1..Len(Q(s)) :
  /\ Leads(Q(t)[i]) = Leads(Q(s)[i])
  /\ ~IsProxy(W, Q(s)[i]) => Q(t)[i] = Q(s)[i]
  /\ Q(s)[i] = 6 => Q(t)[i] = 6
(* read again, nothing is replaced any more unless the address led to an address that led nowhere *)
Once == \A t \in Full1(s) : \A i \in 1..Len(Q(t)) : (In0 /\ ~IsProxy(W, Q(t)[i])) => \A u \in Full1(t) : Q(u)[i] = Q(t)[i]
(* what can be read is resolved *)
Yields == In0 => \A t \in Full1(s) : \A i \in 1..Len(Q(t)) :
  (Q(s)[i] = 3 /\ (s.avail[1] \/ s.stat[1] = 2)) => Q(t)[i] = 1
(* reads at once and one by one agree, and a loaded document stays *)
Stay == \A t \in Full1(s) : \A d \in 1..2 : t.stat[d] >= s.stat[d]
Steps == \A P \in SUBSET (1..Len(Q(s))) : UNION {ReadTo(t, 1, (1..Len(Q(s))) \ P) : t \in ReadTo(s, 1, P)} \cap Full1(s) # {}
(* a search finds an element by itself or by where its address leads *)
Member == \A x \in All : Holds(W, s, 1, Q(s), x) => \A t \in Full1(s) : ~IsProxy(W, x) => Holds(W, t, 1, Q(t), x)
Inv == Plain /\ Outside /\ InPlace /\ Once /\ Yields /\ Stay /\ Steps /\ Member
=============================================================================
