-------------------------------- MODULE URIMC --------------------------------
(* The reference algorithms of URI.tla against each other, for every base and *)
(* target path of up to N segments: normalization is idempotent and changes   *)
(* nothing a path denotes, and relative references lead back to the target.   *)
EXTENDS URI, TLC
CONSTANT N
Segs == {<<97>>, <<98>>, <<97, 58>>, <<>>, One, Two}
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<Slash>> \o Join(Tail(q))
VARIABLES b, t
Start == {<<>>}
Init == b \in {Join(<<x>>) : x \in Segs} /\ t \in {Join(<<x>>) : x \in Segs}
Cut(p) == Cardinality({i \in 1..Len(p) : p[i] = Slash}) + 1
Next == \/ Cut(b) < N /\ \E x \in Segs : b' = b \o <<Slash>> \o x /\ t' = t
        \/ Cut(t) < N /\ \E x \in Segs : t' = t \o <<Slash>> \o x /\ b' = b
Spec == Init /\ [][Next]_<<b, t>>
U(p, s) == [s |-> s, u |-> <<>>, w |-> <<>>, h |-> <<>>, t |-> <<>>, p |-> p, q |-> <<>>, f |-> <<>>]
NormOK == /\ IsNormal(Canon(t)) \/ First(t, {Colon}) # 0
          /\ Same(Canon(t), t) /\ Canon(Canon(t)) = Canon(t)
BackOK == \A s \in {<<>>, <<97>>} :
            LET x == U(b, s)
                y == U(t, s)
            IN Reachable(x, y) => Alike(Resolve(x, Relativize(x, y)), y)
=============================================================================
