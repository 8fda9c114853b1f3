------------------------------- MODULE ResSet -------------------------------
(* Resource sets, URI mappings, and chains of registries.                     *)
(* A state t:                                                                 *)
(*   sets[k]   the resources of set k, in order;  cache[k]: lookups remember  *)
(*   uri[r]    the address of resource r (<<>>: none), loaded[r]              *)
(*   map       the mappings of the URI converter, <<from, to>>                *)
(*   pk[l]     the packages registered at level l, <<namespace, package>>     *)
(*   pres      the resource of package p, 0 for none                          *)
(*   cd[l]     the codecs registered at level l: <<kind, key, codec>>, kind   *)
(*             "p" (protocol), "e" (extension), "*" (default)                 *)
(* Level k of a registry encloses level k-1: what a level does not know is    *)
(* looked up in the next one.  Set k uses level k = 1 and 2, both enclosed by *)
(* level 3.                                                                   *)
EXTENDS SeqOps
U == INSTANCE URI

Up(l) == IF l = 3 THEN 0 ELSE 3

(* ----------------------------------------------------------- addresses *)
(* the mapping with the longest prefix applies, again and again *)
Hits(map, u) == {m \in map : U!ReplacePrefix(u, m[1], m[2]) # <<>>}
RECURSIVE Norm(_, _, _)
Norm(map, u, fuel) ==
  LET h == Hits(map, u)
  IN IF h = {} \/ fuel = 0 THEN u
     ELSE LET m == CHOOSE m \in h : \A n \in h : Len(n[1].p) <= Len(m[1].p)
              v == U!ReplacePrefix(u, m[1], m[2])[1]
          IN IF v = u THEN u ELSE Norm(map, v, fuel - 1)
Final(t, u) == Norm(t.map, u, 9)
At(t, r, u) == t.uri[r] # <<>> /\ Final(t, t.uri[r][1]) = Final(t, u)

(* ------------------------------------------------------------ registries *)
RECURSIVE Package(_, _, _)
Package(t, l, ns) ==
  IF l = 0 THEN 0
  ELSE IF \E x \in t.pk[l] : x[1] = ns THEN (CHOOSE x \in t.pk[l] : x[1] = ns)[2]
  ELSE Package(t, Up(l), ns)
LastDot(p) == U!Last(p, {U!Dot})
Extension(u) == LET k == LastDot(u.p) IN IF k = 0 THEN <<-1>> ELSE SubSeq(u.p, k + 1, Len(u.p))
Has(t, l, kind, key) == \E x \in t.cd[l] : x[1] = kind /\ x[2] = key
The(t, l, kind, key) == (CHOOSE x \in t.cd[l] : x[1] = kind /\ x[2] = key)[3]
RECURSIVE Codec(_, _, _)
Codec(t, l, u) ==
  IF l = 0 THEN 0
  ELSE IF Has(t, l, "p", u.s) THEN The(t, l, "p", u.s)
  ELSE IF Has(t, l, "e", Extension(u)) THEN The(t, l, "e", Extension(u))
  ELSE IF Has(t, l, "*", <<>>) THEN The(t, l, "*", <<>>)
  ELSE Codec(t, Up(l), u)
Put(S, x, Same(_)) == {y \in S : ~Same(y)} \cup {x}

(* --------------------------------------------------------------- lookups *)
(* loading resource r: one read, which succeeds when there is a document;    *)
(* avail: the addresses that have one                                        *)
CanLoad(t, k, r, avail) == t.uri[r] # <<>> /\ Final(t, t.uri[r][1]) \in avail /\ Codec(t, k, t.uri[r][1]) # 0
DoLoad(t, k, r, avail) ==
  IF t.loaded[r] \/ t.uri[r] = <<>> THEN [t |-> t, reads |-> <<>>]
  ELSE [t |-> [t EXCEPT !.loaded[r] = CanLoad(t, k, r, avail)], reads |-> <<Final(t, t.uri[r][1])>>]
New(t, k, u) == [t EXCEPT !.uri = Append(@, <<u>>), !.loaded = Append(@, FALSE), !.sets[k] = Append(@, Len(t.uri) + 1)]
(* the outcomes of a lookup: set of [t, ret, reads].  A package is found in    *)
(* the resource that holds it; otherwise the first resource of the set that   *)
(* has the address, where one that remembers lookups may prefer another one   *)
Lookup(t, k, u, text, demand, avail) ==
  LET P == Package(t, k, text)
      hits == SelectSeq(t.sets[k], LAMBDA r : At(t, r, u))
      found(r) == LET l == IF demand THEN DoLoad(t, k, r, avail) ELSE [t |-> t, reads |-> <<>>]
                  IN [t |-> l.t, ret |-> r, reads |-> l.reads]
      any == {found(hits[j]) : j \in IF t.cache[k] THEN 1..Len(hits) ELSE 1..1}
  IN IF P # 0 /\ t.pres[P] # 0
     THEN {[t |-> t, ret |-> t.pres[P], reads |-> <<>>]}
     ELSE IF hits # <<>> THEN any
     ELSE IF demand THEN LET n == New(t, k, u)
                             l == DoLoad(n, k, Len(n.uri), avail)
                         IN {[t |-> l.t, ret |-> Len(n.uri), reads |-> l.reads]}
     ELSE {[t |-> t, ret |-> 0, reads |-> <<>>]}

SetOf(t, r) == IF \E k \in 1..Len(t.sets) : In(r, t.sets[k]) THEN CHOOSE k \in 1..Len(t.sets) : In(r, t.sets[k]) ELSE 0
Same1(t, r) == {[t |-> t, ret |-> r, reads |-> <<>>]}
MoveTo(t, k, q) ==   \* set k becomes q; resources that enter leave the other set
  [t EXCEPT !.sets = [j \in 1..Len(@) |-> IF j = k THEN q ELSE WithoutAll(@[j], Range(q) \ Range(t.sets[k]))]]
Outcomes(t, op, avail) ==
  CASE op.k = "Get" -> Lookup(t, op.o, op.u, op.text, op.d, avail)
    [] op.k = "GetObj" -> {[x EXCEPT !.ret = IF @ # 0 /\ x.t.loaded[@] THEN @ ELSE 0] : x \in Lookup(t, op.o, op.u, op.text, op.d, avail)}
    [] op.k = "Create" -> Same1(New(t, op.o, op.u), Len(t.uri) + 1)
    [] op.k = "SetURI" -> Same1([t EXCEPT !.uri[op.o] = op.us], 0)
    [] op.k = "Map" -> Same1([t EXCEPT !.map = Put(@, <<op.u, op.v>>, LAMBDA y : y[1] = op.u)], 0)
    [] op.k = "Unmap" -> Same1([t EXCEPT !.map = {y \in @ : y[1] # op.u}], 0)
    [] op.k = "Norm" -> {[t |-> t, ret |-> Final(t, op.u), reads |-> <<>>]}
    [] op.k = "Load" -> LET l == DoLoad(t, SetOf(t, op.o), op.o, avail) IN {[t |-> l.t, ret |-> 0, reads |-> l.reads]}
    [] op.k = "Unload" -> Same1([t EXCEPT !.loaded[op.o] = FALSE], 0)
    [] op.k = "Cache" -> Same1([t EXCEPT !.cache[op.o] = op.d], 0)
    [] op.k = "PutPack" -> Same1([t EXCEPT !.pk[op.o] = Put(@, <<op.text, op.i>>, LAMBDA y : y[1] = op.text)], 0)
    [] op.k = "RemPack" -> Same1([t EXCEPT !.pk[op.o] = {y \in @ : y[1] # op.text}], 0)
    [] op.k = "FindPack" -> Same1(t, Package(t, op.o, op.text))
    [] op.k = "PutCodec" -> Same1([t EXCEPT !.cd[op.o] = Put(@, <<op.kind, op.key, op.i>>, LAMBDA y : y[1] = op.kind /\ y[2] = op.key)], 0)
    [] op.k = "RemCodec" -> Same1([t EXCEPT !.cd[op.o] = {y \in @ : ~(y[1] = op.kind /\ y[2] = op.key)}], 0)
    [] op.k = "FindCodec" -> Same1(t, Codec(t, op.o, op.u))
    [] OTHER -> LET l == ListOp(TRUE, op, t.sets[op.o]) IN {[t |-> MoveTo(t, op.o, l.q), ret |-> r, reads |-> <<>>] : r \in l.rets}
(* ------------------------------------------------------------- invariants *)
OneSet(t) == \A j, k \in 1..Len(t.sets) : j # k => Range(t.sets[j]) \cap Range(t.sets[k]) = {}
NoTwice(t) == \A k \in 1..Len(t.sets) : NoDup(t.sets[k])
=============================================================================
