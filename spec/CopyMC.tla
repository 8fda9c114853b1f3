------------------------------- MODULE CopyMC -------------------------------
(* Every graph of N objects, one copy, then one edit: copies are as described *)
(* in C12 and the fixpoint definition of equality is isomorphism wherever the *)
(* two graphs have no object in common.                                       *)
EXTENDS Copy, TLC
CONSTANTS N
MMeta == [kids |-> [attr |-> FALSE, many |-> TRUE, uniq |-> TRUE, cont |-> TRUE, container |-> FALSE, opp |-> "", res |-> FALSE],
          link |-> [attr |-> FALSE, many |-> FALSE, uniq |-> TRUE, cont |-> FALSE, container |-> FALSE, opp |-> "", res |-> FALSE],
          name |-> [attr |-> TRUE, many |-> FALSE, uniq |-> TRUE, cont |-> FALSE, container |-> FALSE, opp |-> "", res |-> FALSE]]
MOrder == [c |-> <<"name", "kids", "link">>]
Seqs(S) == UNION {{q \in [1..k -> S] : NoDup(q)} : k \in 0..Cardinality(S)}
Of(k, l, n) == [val |-> [o \in 1..N |-> [kids |-> k[o], link |-> l[o], name |-> n[o]]], rc |-> <<>>, set |-> <<>>, watch |-> <<>>]
Forests == {k \in [1..N -> Seqs(1..N)] : Sound(Of(k, [o \in 1..N |-> <<>>], [o \in 1..N |-> <<>>]))}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}

VARIABLES s, n, roots, phase
vars == <<s, n, roots, phase>>
Cls == [o \in 1..Len(s.val) |-> "c"]
Px == [o \in 1..Len(s.val) |-> 0]
Init == /\ \E k \in Forests, l \in [1..N -> Opt(1..N)], m \in [1..N -> Opt({101})] : s = Of(k, l, m)
        /\ n = N /\ roots = <<>> /\ phase = 0
CopyIt == /\ phase = 0
          /\ \E r \in 1..N :
               /\ roots' = <<r>>
               /\ s' = CopyOf(s, Cls, Px, <<r>>).s
          /\ phase' = 1 /\ n' = N
Edit == /\ phase = 1
        /\ \E o \in 1..Len(s.val) :
             \/ \E q \in Opt({101}) : s' = Assign(s, o, "name", q)
             \/ \E q \in Opt(1..Len(s.val)) : s' = Assign(s, o, "link", q)
             \/ s' = Assign(s, o, "kids", <<>>)
        /\ phase' = 2 /\ UNCHANGED <<n, roots>>
Next == CopyIt \/ Edit \/ (phase = 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

RECURSIVE Reach(_, _)
Reach(S, fuel) ==
  LET T == S \cup UNION {Range(s.val[x].kids) \cup Range(s.val[x].link) : x \in S}
  IN IF T = S \/ fuel = 0 THEN S ELSE Reach(T, fuel - 1)
Iso(a, b) ==
  LET A == Reach({a}, 99)
      B == Reach({b}, 99)
      M(h, q) == [k \in 1..Len(q) |-> h[q[k]]]
  IN \E h \in [A -> B] :
       /\ h[a] = b /\ \A x, y \in A : h[x] = h[y] => x = y
       /\ \A x \in A : /\ s.val[h[x]].name = s.val[x].name
                       /\ s.val[h[x]].kids = M(h, s.val[x].kids)
                       /\ s.val[h[x]].link = M(h, s.val[x].link)
Eq(a, b) == Equal(s, Cls, Px, a, b)
Pairs == IF phase = 0 THEN {} ELSE {<<roots[1], N + 1>>} \cup {<<a, b>> \in (1..N) \X (1..Len(s.val)) : a # b /\ phase = 2}
Isomorphism == \A p \in Pairs : Reach({p[1]}, 99) \cap Reach({p[2]}, 99) = {} => (Eq(p[1], p[2]) <=> Iso(p[1], p[2]))
Symmetric == \A p \in Pairs : Eq(p[1], p[2]) <=> Eq(p[2], p[1])
Reflexive == \A a \in 1..Len(s.val) : Eq(a, a)
Transitive == phase = 2 \/ \A a, b, c \in 1..Len(s.val) :
   (Reach({a}, 99) \cap Reach({b}, 99) = {} /\ Reach({b}, 99) \cap Reach({c}, 99) = {} /\ Reach({a}, 99) \cap Reach({c}, 99) = {} /\ Eq(a, b) /\ Eq(b, c)) => Eq(a, c)
CopyEqual == phase = 1 => Eq(roots[1], N + 1)
CopySound == phase = 2 \/ Sound(s)
Independent == [][phase = 0 => \A o \in 1..N : s'.val[o] = s.val[o]]_vars
=============================================================================
