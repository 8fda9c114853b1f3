------------------------------- MODULE CodecMC ------------------------------
(* Objects in documents A and B are edited, saved and loaded; saved documents *)
(* may be cut. Every saved document says exactly what the model was when it   *)
(* was saved, whatever happened since, and a cut document is never complete.  *)
EXTENDS Codec, FiniteSets
CONSTANTS Objs, MaxKids, Later
VARIABLES kids, ref, val, roots, file, told, since
vars == <<kids, ref, val, roots, file, told, since>>
(* kids[x]: contained objects in order; ref[x]: an object or 0; val[x]: "" is  *)
(* unset; roots[d]; file: the saved document; told: what the model was when    *)
(* it was saved; since: edits since then, at most Later of them               *)
Docs == {"A", "B"}
None == [ok |-> FALSE, doc |-> [roots |-> 0, nodes |-> <<>>]]
InSeq(q, x) == \E k \in 1..Len(q) : q[k] = x
RECURSIVE Above(_)
Above(x) == LET p == {y \in Objs : InSeq(kids[y], x)} IN p \cup UNION {Above(y) : y \in p}
RootOf(x) == CHOOSE y \in {x} \cup Above(x) : Above(y) = {}
DocAt(x) == LET d == {d \in Docs : InSeq(roots[d], RootOf(x))} IN IF d = {} THEN "" ELSE CHOOSE y \in d : TRUE
Name(x) == DocAt(x) \o "#" \o ToString(x)
W == [objs |-> [x \in Objs |->
        [c |-> "Node", i |-> "", px |-> "", pt |-> 0,
         dr |-> LET d == {d \in Docs : InSeq(roots[d], x)} IN IF d = {} THEN "" ELSE CHOOSE y \in d : TRUE,
         ad |-> IF DocAt(x) = "" THEN "" ELSE Name(x),
         f |-> (IF val[x] = "" THEN <<>> ELSE <<[n |-> "val", k |-> "a", s |-> TRUE, v |-> <<val[x]>>, o |-> <<>>]>>)
               \o (IF kids[x] = <<>> THEN <<>> ELSE <<[n |-> "kids", k |-> "c", s |-> TRUE, v |-> <<>>, o |-> kids[x]]>>)
               \o (IF ref[x] = 0 THEN <<>> ELSE <<[n |-> "ref", k |-> "r", s |-> TRUE, v |-> <<>>, o |-> <<ref[x]>>]>>)]],
      res |-> [d \in Docs |-> [u |-> d, r |-> roots[d]]]]
Free(x) == Above(x) = {} /\ \A d \in Docs : ~InSeq(roots[d], x)
Init == /\ kids = [x \in Objs |-> <<>>] /\ ref = [x \in Objs |-> 0] /\ val = [x \in Objs |-> ""]
        /\ roots = [d \in Docs |-> <<>>] /\ file = <<>> /\ told = None /\ since = 0
Edit == UNCHANGED <<file, told>> /\ IF told.ok THEN since < Later /\ since' = since + 1 ELSE since' = 0
Root(d, x) == Free(x) /\ roots' = [roots EXCEPT ![d] = Append(@, x)] /\ UNCHANGED <<kids, ref, val>> /\ Edit
Unroot(d) == roots[d] # <<>> /\ roots' = [roots EXCEPT ![d] = Tail(@)] /\ UNCHANGED <<kids, ref, val>> /\ Edit
Contain(x, y) == Free(y) /\ x # y /\ y \notin Above(x) /\ Len(kids[x]) < MaxKids
                 /\ kids' = [kids EXCEPT ![x] = Append(@, y)] /\ UNCHANGED <<ref, val, roots>> /\ Edit
Refer(x, y) == ref' = [ref EXCEPT ![x] = y] /\ UNCHANGED <<kids, val, roots>> /\ Edit
Value(x, v) == val' = [val EXCEPT ![x] = v] /\ UNCHANGED <<kids, ref, roots>> /\ Edit
Save(d) == LET doc == DocOf(W, d) IN
           /\ ~told.ok /\ ~Dangling(doc)
           /\ file' = Enc(doc) /\ told' = [ok |-> TRUE, doc |-> doc] /\ since' = 0
           /\ UNCHANGED <<kids, ref, val, roots>>
(* the contents of the document become a model of their own *)
Load == /\ told.ok /\ since > 0
        /\ LET r == Dec(file) IN r.ok /\ told' = r /\ file' = Enc(r.doc)
        /\ since' = Later /\ UNCHANGED <<kids, ref, val, roots>>
Next == \/ Load
        \/ \E d \in Docs : Save(d) \/ Unroot(d) \/ \E x \in Objs : Root(d, x)
        \/ \E x, y \in Objs : Contain(x, y)
        \/ \E x \in Objs : (\E y \in Objs \cup {0} : Refer(x, y)) \/ \E v \in {"", "1"} : Value(x, v)
Spec == Init /\ [][Next]_vars
(* what was saved can be read, and says what the model was *)
Kept == Dec(file) = told \/ (file = <<>> /\ ~told.ok)
(* no part of a document passes for a document *)
Whole == since = 0 => \A k \in 0..Len(file) - 1 : ~Dec(SubSeq(file, 1, k)).ok
(* an object is written in one document at most, and once *)
Once == since = 0 => \A d \in Docs : ~Dangling(DocOf(W, d)) =>
          LET q == Enc(DocOf(W, d)) n == Cardinality({x \in Objs : DocAt(x) = d})
          IN Len(SelectSeq(q, LAMBDA t : t.t = "object")) = n
(* saving, loading and saving again gives the same document *)
Again == told.ok => Enc(Dec(file).doc) = file
=============================================================================
