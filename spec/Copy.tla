-------------------------------- MODULE Copy --------------------------------
(* Deep copies and deep equality of the object graphs of Graph.tla.          *)
(*   cls[o]  the class of object o; Order[c] its features in order;          *)
(*   px[o]   0, or the number of the uri object o is a proxy for.            *)
EXTENDS Graph
CONSTANTS Order

RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Cat(SubSeq(qs, 2, Len(qs)))
(* x and everything contained in it, parents first, in feature order *)
RECURSIVE TreeOf(_, _, _)
TreeOf(s, cls, x) ==
  LET fs == SelectSeq(Order[cls[x]], LAMBDA f : Meta[f].cont)
      kids == Cat([k \in 1..Len(fs) |-> s.val[x][fs[k]]])
  IN <<x>> \o Cat([j \in 1..Len(kids) |-> TreeOf(s, cls, kids[j])])

(* the copies of the trees of roots, numbered in the order of the trees *)
CopyOf(s, cls, px, roots) ==
  LET src == Cat([k \in 1..Len(roots) |-> TreeOf(s, cls, roots[k])])
      n == Len(s.val)
      Copied(x) == In(x, src)
      To(x) == n + (CHOOSE k \in 1..Len(src) : src[k] = x)
      Map(q) == [k \in 1..Len(q) |-> IF Copied(q[k]) THEN To(q[k]) ELSE q[k]]
      Value(x, f) ==
        IF Meta[f].attr THEN s.val[x][f]
        \* an outside object cannot refer back to the copy, it is left out
        ELSE IF Meta[f].opp # "" THEN Map(SelectSeq(s.val[x][f], Copied))
        ELSE Map(s.val[x][f])
  IN [s |-> [s EXCEPT !.val = @ \o [k \in 1..Len(src) |-> [f \in DOMAIN s.val[src[k]] |-> Value(src[k], f)]]],
      cls |-> cls \o [k \in 1..Len(src) |-> cls[src[k]]],
      px |-> px \o [k \in 1..Len(src) |-> px[src[k]]],
      new |-> [k \in 1..Len(roots) |-> To(roots[k])]]

(* ------------------------------------------------------------- equality *)
(* a and b alike on their own *)
Alike(s, d, cls, px, a, b) ==
  \/ a = b
  \/ px[a] # 0 /\ px[a] = px[b]
  \/ /\ px[a] = 0 /\ px[b] = 0 /\ cls[a] = cls[b]
     /\ \A k \in 1..Len(Order[cls[a]]) :
          LET f == Order[cls[a]][k]
              x == FullVal(s, d, a, f)
              y == FullVal(s, d, b, f)
          IN Meta[f].container \/ (Len(x) = Len(y) /\ (Meta[f].attr => x = y))
(* what has to correspond when a and b do *)
Forced(s, d, cls, px, a, b) ==
  IF a = b \/ px[a] # 0 THEN {}
  ELSE UNION {LET f == Order[cls[a]][k]
                  x == FullVal(s, d, a, f)
                  y == FullVal(s, d, b, f)
              IN IF Meta[f].attr \/ Meta[f].container THEN {} ELSE {<<x[j], y[j]>> : j \in 1..Len(x)} : k \in 1..Len(Order[cls[a]])}
(* the least correspondence, or {} when there is none *)
RECURSIVE Close(_, _, _, _, _, _)
Close(s, d, cls, px, done, todo) ==
  IF todo = {} THEN [ok |-> TRUE, pairs |-> done]
  ELSE IF \E p \in todo : ~Alike(s, d, cls, px, p[1], p[2]) THEN [ok |-> FALSE, pairs |-> {}]
  ELSE LET now == done \cup todo
           next == UNION {Forced(s, d, cls, px, p[1], p[2]) : p \in todo}
       IN Close(s, d, cls, px, now, next \ now)
OneToOne(M) ==
  LET sym == M \cup {<<p[2], p[1]>> : p \in M}
  IN \A p, q \in sym : p[1] = q[1] => p = q
EqualAll(s, cls, px, x, y) ==
  /\ Len(x) = Len(y)
  /\ LET c == Close(s, Derive(s), cls, px, {}, {<<x[k], y[k]>> : k \in 1..Len(x)})
     IN c.ok /\ OneToOne(c.pairs)
Equal(s, cls, px, a, b) == EqualAll(s, cls, px, <<a>>, <<b>>)
=============================================================================
