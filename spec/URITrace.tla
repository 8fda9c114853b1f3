------------------------------- MODULE URITrace -------------------------------
(* Recorded URI operations against URI.tla.  Every recorded URI carries its   *)
(* text, which must denote its components.                                    *)
EXTENDS URI, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
C(x) == [k \in {"s", "u", "w", "h", "t", "p", "q", "f"} |-> x[k]]
TextOK(x) == Parse(x.text) = C(x)
Want(e) ==
  CASE e.k = "parse" -> "the components of the text"
    [] e.k = "build" -> "the given components"
    [] e.k = "norm" -> "a normal path that denotes the same"
    [] e.k = "resolve" -> Resolve(C(e.a), C(e.b))
    [] e.k = "back" -> C(e.b)
    [] e.k = "prefix" -> ReplacePrefix(C(e.a), C(e.b), C(e.c))
    [] OTHER -> ""
Ok(e) ==
  CASE e.k = "parse" -> TextOK(e.r)
    [] e.k = "build" -> C(e.r) = C(e.a) /\ TextOK(e.r)
    [] e.k = "norm" -> Alike(C(e.r), C(e.a)) /\ IsNormal(e.r.p) /\ TextOK(e.r)
    [] e.k = "resolve" -> Alike(C(e.r), Resolve(C(e.a), C(e.b))) /\ TextOK(e.r)
    [] e.k = "back" -> /\ TextOK(e.m) /\ TextOK(e.r)
                       /\ Reachable(C(e.a), C(e.b)) => Alike(C(e.r), C(e.b))
    [] e.k = "trim" -> C(e.r) = [C(e.a) EXCEPT !.f = <<>>] /\ C(e.m) = [C(e.a) EXCEPT !.q = <<>>] /\ TextOK(e.r) /\ TextOK(e.m)
    [] e.k = "prefix" -> LET w == ReplacePrefix(C(e.a), C(e.b), C(e.c))
                         IN (IF w = <<>> THEN e.r = <<>>
                             ELSE e.r # <<>> /\ C(e.r[1]) = w[1] /\ (Valid(w[1]) => TextOK(e.r[1])))
    [] e.k = "auth" -> LET x == Parse(<<Slash, Slash>> \o e.r) IN SameAuth(x, C(e.a)) /\ (~HasAuth(C(e.a)) => e.r = <<>>)
    [] e.k = "equal" -> /\ e.r = (C(e.a) = C(e.b))
                        /\ e.a.text = e.b.text => e.r
    [] e.k = "failed" -> FALSE
    [] e.k = "hang" -> FALSE
Init == i = 2 /\ bad = {}
Next == /\ i <= Len(TraceLog) /\ i' = i + 1
        /\ LET e == TraceLog[i]
           IN /\ bad' = IF Ok(e) THEN {} ELSE {e.k}
              /\ bad' # {} => PrintT(ToString(<<"REJECTED", i, e.k>>) \o " WANT " \o ToJson(Want(e)))
Spec == Init /\ [][Next]_<<i, bad>>
NotBad == bad = {}
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
