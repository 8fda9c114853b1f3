------------------------------- MODULE Monitor -------------------------------
(* Linearizability of recorded concurrent histories, decided by following    *)
(* every possible order at once: a configuration is [s, ops, done], s the    *)
(* abstract state, ops the calls that were made and have not taken effect,   *)
(* done the results of those that took effect and have not returned. A       *)
(* history is accepted as long as some configuration is left.                *)
EXTENDS Integers, Sequences, FiniteSets

(* Apply(s, op): set of <<result, state>> *)
RECURSIVE Closure(_, _, _)
Closure(Apply(_, _), seen, frontier) ==
  LET next == UNION {UNION {{[s |-> r[2], ops |-> [c \in DOMAIN q.ops \ {k} |-> q.ops[c]],
                               done |-> [c \in DOMAIN q.done \cup {k} |-> IF c = k THEN r[1] ELSE q.done[c]]] :
                              r \in Apply(q.s, q.ops[k])} : k \in DOMAIN q.ops} : q \in frontier} \ seen
  IN IF next = {} THEN seen ELSE Closure(Apply, seen \cup next, next)

Call(Apply(_, _), Q, k, op) ==
  LET R == {[q EXCEPT !.ops = [c \in DOMAIN q.ops \cup {k} |-> IF c = k THEN op ELSE q.ops[c]]] : q \in Q}
  IN Closure(Apply, R, R)
Return(Q, k, Ok(_)) ==
  {[q EXCEPT !.done = [c \in DOMAIN q.done \ {k} |-> q.done[c]]] : q \in {p \in Q : k \in DOMAIN p.done /\ Ok(p.done[k])}}
Start(s) == {[s |-> s, ops |-> <<>>, done |-> <<>>]}
=============================================================================
