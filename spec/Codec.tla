------------------------------- MODULE Codec -------------------------------
(* Saved documents. A world w has objects and documents:                     *)
(*   w.objs[o] = [c |-> class, i |-> identifier or "", px |-> "" or the      *)
(*     address object o is a proxy for, pt |-> the object at that address    *)
(*     when it is at hand or 0, dr |-> "" or the document o is a root of,    *)
(*     ad |-> address, f |-> the features that are set or not empty]         *)
(*   a feature: [n |-> name, k |-> "a" attribute, "c" containment or "r"     *)
(*     reference, s |-> set?, v |-> attribute values, o |-> objects]         *)
(*   w.res[d] = [u |-> address, r |-> roots]                                 *)
(* A document says what its objects are, in the order of the containment     *)
(* tree; objects of the document are told by their number (with a "!" when   *)
(* an object that contains one does not hold its contents in the document),  *)
(* others by their address.                                                  *)
EXTENDS Naturals, Sequences, TLC
LOCAL INSTANCE SequencesExt

Local(w, x) == w.objs[x].px = "" /\ w.objs[x].dr = ""
RECURSIVE Tree(_, _)
Tree(w, x) ==
  LET fs == SelectSeq(w.objs[x].f, LAMBDA f : f.k = "c")
      kids == FlattenSeq([j \in 1..Len(fs) |-> SelectSeq(fs[j].o, LAMBDA y : y # 0 /\ Local(w, y))])
  IN <<x>> \o FlattenSeq([j \in 1..Len(kids) |-> Tree(w, kids[j])])

DocOf(w, d) ==
  LET own == FlattenSeq([j \in 1..Len(w.res[d].r) |-> Tree(w, w.res[d].r[j])])
      pos == [x \in {own[k] : k \in 1..Len(own)} |-> CHOOSE k \in 1..Len(own) : own[k] = x]
      At(x) == "@" \o ToString(pos[x])
      Say(x) ==
        IF x = 0 THEN "nil"
        ELSE IF x \in DOMAIN pos THEN At(x)
        ELSE LET o == w.objs[x]
             IN IF o.px = "" THEN (IF o.ad = "" THEN "nowhere" ELSE o.ad)
                ELSE IF o.pt \in DOMAIN pos THEN At(o.pt)
                ELSE o.px
  IN [roots |-> Len(w.res[d].r),
      nodes |-> [k \in 1..Len(own) |->
        LET o == w.objs[own[k]]
        IN [c |-> o.c, i |-> o.i,
            f |-> [j \in 1..Len(o.f) |->
              [n |-> o.f[j].n, s |-> o.f[j].s, k |-> o.f[j].k,
               v |-> IF o.f[j].k = "a" THEN o.f[j].v
                     ELSE [m \in 1..Len(o.f[j].o) |->
                            LET x == o.f[j].o[m] y == Say(x)
                            IN IF o.f[j].k = "c" /\ x # 0 /\ ~Local(w, x) /\ (x \in DOMAIN pos \/ w.objs[x].pt \in DOMAIN pos)
                               THEN "!" \o y ELSE y]]]]]]

(* a document can be saved when it refers to nothing outside all documents *)
Dangling(doc) == \E k \in 1..Len(doc.nodes) : \E j \in 1..Len(doc.nodes[k].f) :
                    \E m \in 1..Len(doc.nodes[k].f[j].v) : doc.nodes[k].f[j].k # "a" /\ doc.nodes[k].f[j].v[m] = "nowhere"

(* a database has no place for the address of a contained object *)
Foreign(doc) == \E k \in 1..Len(doc.nodes) : \E j \in 1..Len(doc.nodes[k].f) :
                  /\ doc.nodes[k].f[j].k = "c"
                  /\ \E m \in 1..Len(doc.nodes[k].f[j].v) :
                       \A n \in 1..Len(doc.nodes) : doc.nodes[k].f[j].v[m] # "@" \o ToString(n)

(* what a format keeps of a document *)
View(doc, format, ids) ==
  [doc EXCEPT !.nodes = [k \in 1..Len(@) |->
     [@[k] EXCEPT !.i = IF ids THEN @ ELSE "",
                  !.f = IF format # "sql" THEN @
                        ELSE LET q == SelectSeq(@, LAMBDA f : f.v # <<>> /\ f.v # <<"nil">>)
                             IN [j \in 1..Len(q) |-> [q[j] EXCEPT !.s = TRUE]]]]]

(* ------------------------------------------------------ the saved document *)
(* Objects are written where they are contained, everything else by number   *)
(* or address, and numbers are given in the order of writing.                *)
NumOf == [k \in 1..2000 |-> "@" \o ToString(k)]
RECURSIVE Write(_, _)
Write(doc, k) ==
  LET Feature(f) ==
        <<[t |-> "feature", n |-> f.n, s |-> f.s, k |-> f.k]>>
        \o FlattenSeq([m \in 1..Len(f.v) |->
             IF f.k = "c" /\ \E j \in 1..Len(doc.nodes) : NumOf[j] = f.v[m]
             THEN Write(doc, CHOOSE j \in 1..Len(doc.nodes) : NumOf[j] = f.v[m])
             ELSE <<[t |-> "value", v |-> f.v[m]]>>])
  IN <<[t |-> "object", c |-> doc.nodes[k].c, i |-> doc.nodes[k].i]>>
     \o FlattenSeq([j \in 1..Len(doc.nodes[k].f) |-> Feature(doc.nodes[k].f[j])])
     \o <<[t |-> "end"]>>
RECURSIVE WriteRoots(_, _, _)
WriteRoots(doc, n, k) ==
  IF n = 0 THEN <<>>
  ELSE LET q == Write(doc, k)
           made == Len(SelectSeq(q, LAMBDA x : x.t = "object"))
       IN q \o WriteRoots(doc, n - 1, k + made)
Enc(doc) == <<[t |-> "document", n |-> doc.roots]>> \o WriteRoots(doc, doc.roots, 1)

Last1(q) == q[Len(q)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)
(* the reader: what is read so far, and the objects that are not finished *)
Put(r, x) ==   \* a value for the last feature of the last unfinished object
  LET k == Last1(r.open)
      j == Len(r.nodes[k].f)
  IN [r EXCEPT !.nodes[k].f[j].v = Append(@, x)]
Read(r, x) ==
  IF ~r.ok THEN r
  ELSE IF x.t = "document" THEN [r EXCEPT !.n = x.n, !.ok = r.nodes = <<>>]
  ELSE IF x.t = "object" THEN
    LET k == Len(r.nodes) + 1
        p == IF r.open = <<>> THEN [r EXCEPT !.roots = @ + 1] ELSE Put(r, NumOf[k])
    IN [p EXCEPT !.nodes = Append(@, [c |-> x.c, i |-> x.i, f |-> <<>>]), !.open = Append(@, k)]
  ELSE IF r.open = <<>> THEN [r EXCEPT !.ok = FALSE]
  ELSE IF x.t = "feature" THEN [r EXCEPT !.nodes[Last1(r.open)].f = Append(@, [n |-> x.n, s |-> x.s, k |-> x.k, v |-> <<>>])]
  ELSE IF x.t = "value" THEN Put(r, x.v)
  ELSE [r EXCEPT !.open = Front1(@)]
(* [ok |-> was the document complete?, doc |-> ...] *)
Dec(q) ==
  LET r == FoldLeft(Read, [ok |-> TRUE, n |-> 0, roots |-> 0, nodes |-> <<>>, open |-> <<>>], q)
  IN [ok |-> r.ok /\ q # <<>> /\ r.open = <<>> /\ r.roots = r.n, doc |-> [roots |-> r.roots, nodes |-> r.nodes]]
=============================================================================
