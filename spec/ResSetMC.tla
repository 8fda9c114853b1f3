------------------------------ MODULE ResSetMC ------------------------------
(* Every history of two resource sets with aliased addresses, small bound:     *)
(* what a lookup promises follows from the transitions of ResSet.tla.          *)
EXTENDS ResSet, TLC
CONSTANTS NR, Scope
VARIABLES t
Addr(s, p) == [s |-> s, u |-> <<>>, w |-> <<>>, h |-> <<>>, t |-> <<>>, p |-> p, q |-> <<>>, f |-> <<>>]
A == Addr(<<97>>, <<47, 120>>)            \* a:/x
B == Addr(<<98>>, <<47, 120>>)            \* b:/x
C == Addr(<<99>>, <<47, 120, 46, 109>>)   \* c:/x.m
URIs == {A, B, C}
Text == A :> "A" @@ B :> "B" @@ C :> "C"
Avail == {B, C}
Blank == [x |-> <<>>, i |-> 0, j |-> 0, o |-> 1, d |-> FALSE]
Op(k, o) == [Blank EXCEPT !.o = o] @@ [k |-> k]
Get(k, u, d) == [[Op("Get", k) EXCEPT !.d = d] EXCEPT !.o = k] @@ [u |-> u, text |-> Text[u]]
Res == 1..Len(t.uri)
\* the mappings of the scope: a to b, and what starts with a:/x to c:/x.m
Maps == {<<Addr(<<97>>, <<>>), Addr(<<98>>, <<>>)>>, <<A, C>>}
Ops == {Get(k, u, d) : k \in IF Scope = "registries" THEN {1} ELSE {1, 2}, u \in URIs, d \in BOOLEAN}
  \cup {Op("Map", 1) @@ [u |-> m[1], v |-> m[2]] : m \in Maps} \cup {Op("Unmap", 1) @@ [u |-> m[1]] : m \in Maps}
  \cup {[Op("Unload", r) EXCEPT !.d = FALSE] : r \in Res}
  \cup (IF Scope = "registries"
        THEN {[Op("PutPack", l) EXCEPT !.i = p] @@ [text |-> "A"] : l \in {1, 3}, p \in 1..2} \cup {Op("RemPack", l) @@ [text |-> "A"] : l \in {1, 3}}
             \cup {[Op("PutCodec", l) EXCEPT !.i = 1] @@ [kind |-> "e", key |-> <<109>>] : l \in {1, 3}}
             \cup {[Op("PutCodec", l) EXCEPT !.i = 2] @@ [kind |-> "*", key |-> <<>>] : l \in {1, 3}}
        ELSE {Op("SetURI", r) @@ [us |-> <<u>>] : r \in Res, u \in URIs} \cup {Op("SetURI", r) @@ [us |-> <<>>] : r \in Res}
             \cup {[Op("Add", k) EXCEPT !.x = <<r>>] : k \in 1..2, r \in Res}
             \cup {[Op("Remove", k) EXCEPT !.x = <<r>>] : k \in 1..2, r \in Res}
             \cup {[Op("Cache", 1) EXCEPT !.d = b] : b \in BOOLEAN})
Init == t = [sets |-> <<<<>>, <<>>>>, cache |-> <<FALSE, FALSE>>, uri |-> <<<<C>>>>, loaded |-> <<TRUE>>, map |-> {},
             pk |-> <<{}, {}, {}>>, pres |-> <<1, 0>>,
             cd |-> IF Scope = "registries" THEN <<{}, {}, {}>> ELSE <<{}, {}, {<<"*", <<>>, 1>>}>>]
Next == \E op \in Ops : \E x \in Outcomes(t, op, Avail) : Len(x.t.uri) <= NR /\ t' = x.t
Spec == Init /\ [][Next]_t

Found(k, u, d) == Lookup(t, k, u, Text[u], d, Avail)
Sound == OneSet(t) /\ NoTwice(t)
(* a lookup without loading changes nothing *)
ReadsNothing == \A k \in 1..2, u \in URIs : \A x \in Found(k, u, FALSE) : x.t = t /\ x.reads = <<>>
(* what is found has the address or holds the package registered for it *)
FindsIt == \A k \in 1..2, u \in URIs : \A x \in Found(k, u, FALSE) :
  x.ret # 0 => \/ At(t, x.ret, u) /\ In(x.ret, t.sets[k])
               \/ LET P == Package(t, k, Text[u]) IN P # 0 /\ t.pres[P] = x.ret
(* aliases find the same *)
Aliases == \A k \in 1..2, u, v \in URIs : Final(t, u) = Final(t, v) /\ Package(t, k, Text[u]) = Package(t, k, Text[v])
  => {x.ret : x \in Found(k, u, FALSE)} = {x.ret : x \in Found(k, v, FALSE)}
(* loading on demand: a resource is made when there was none, at most once, and found from then on *)
Demand == \A k \in 1..2, u, v \in URIs : \A x \in Found(k, u, TRUE) :
  /\ x.ret # 0 /\ Len(x.t.uri) <= Len(t.uri) + 1 /\ Len(x.reads) <= 1
  /\ (\E y \in Found(k, u, FALSE) : y.ret # 0) => Len(x.t.uri) = Len(t.uri)
  /\ (Final(t, u) = Final(t, v) /\ Package(t, k, Text[u]) = 0 /\ Package(t, k, Text[v]) = 0)
       => \A y \in Lookup(x.t, k, v, Text[v], TRUE, Avail) : Len(y.t.uri) = Len(x.t.uri) /\ (~t.cache[k] => y.ret = x.ret)
(* a local registration hides the one of the enclosing registry, and only it *)
Hides == \A k \in 1..2 : Package(t, k, "A") = IF \E x \in t.pk[k] : x[1] = "A" THEN (CHOOSE x \in t.pk[k] : x[1] = "A")[2] ELSE Package(t, 3, "A")
Inv == Sound /\ ReadsNothing /\ FindsIt /\ Aliases /\ Demand /\ Hides
=============================================================================
