--------------------------------- MODULE URI ---------------------------------
(* URIs as RFC 3986 has them.  Text is a sequence of bytes.  A URI is a       *)
(* record [s, u, w, h, t, p, q, f]: scheme, user, password, host, port, path  *)
(* (percent-decoded), query, fragment (as written); an absent component is    *)
(* the empty sequence.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47
Dot == 46
Colon == 58
Quest == 63
Hash == 35
At == 64
Pct == 37
Close == 93

Range(q) == {q[i] : i \in 1..Len(q)}
First(t, S) == IF \E i \in 1..Len(t) : t[i] \in S
               THEN CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in 1..(i - 1) : t[j] \notin S
               ELSE 0
Last(t, S) == IF \E i \in 1..Len(t) : t[i] \in S
              THEN CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in (i + 1)..Len(t) : t[j] \notin S
              ELSE 0
From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i)

(* ------------------------------------------------------------------- text *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
RECURSIVE Decode(_)
Decode(t) == LET i == First(t, {Pct})
             IN IF i = 0 \/ i + 2 > Len(t) THEN t
                ELSE Upto(t, i - 1) \o <<16 * Hex(t[i + 1]) + Hex(t[i + 2])>> \o Decode(From(t, i + 3))
Before(t, S) == LET i == First(t, S) IN IF i = 0 THEN t ELSE Upto(t, i - 1)
After(t, S) == LET i == First(t, S) IN IF i = 0 THEN <<>> ELSE From(t, i + 1)
(* the components a text denotes (RFC 3986, appendix B, except that the slashes *)
(* of a text that starts with three of them belong to the path)               *)
Parse(text) ==
  LET f == After(text, {Hash})
      r1 == Before(text, {Hash})
      q == After(r1, {Quest})
      r2 == Before(r1, {Quest})
      c == First(r2, {Colon, Slash})
      hasScheme == c > 1 /\ r2[c] = Colon
      s == IF hasScheme THEN Upto(r2, c - 1) ELSE <<>>
      r3 == IF hasScheme THEN From(r2, c + 1) ELSE r2
      hasAuth == Len(r3) >= 2 /\ r3[1] = Slash /\ r3[2] = Slash /\ (hasScheme \/ Len(r3) = 2 \/ r3[3] # Slash)
      r4 == IF hasAuth THEN From(r3, 3) ELSE r3
      e == First(r4, {Slash})
      auth == IF hasAuth THEN (IF e = 0 THEN r4 ELSE Upto(r4, e - 1)) ELSE <<>>
      path == IF hasAuth THEN (IF e = 0 THEN <<>> ELSE From(r4, e)) ELSE r3
      a == Last(auth, {At})
      user == IF a = 0 THEN <<>> ELSE Upto(auth, a - 1)
      hp == From(auth, a + 1)
      k == Last(hp, {Colon})
      hasPort == k > Last(hp, {Close})
  IN [s |-> s, u |-> Decode(Before(user, {Colon})), w |-> Decode(After(user, {Colon})),
      h |-> IF hasPort THEN Upto(hp, k - 1) ELSE hp, t |-> IF hasPort THEN From(hp, k + 1) ELSE <<>>,
      p |-> Decode(path), q |-> q, f |-> f]

HasAuth(x) == x.u # <<>> \/ x.w # <<>> \/ x.h # <<>> \/ x.t # <<>>
SameAuth(x, y) == x.u = y.u /\ x.w = y.w /\ x.h = y.h /\ x.t = y.t
(* components that some text has *)
Valid(x) == HasAuth(x) /\ x.p # <<>> => x.p[1] = Slash

(* ------------------------------------------------------------------- paths *)
RECURSIVE Split(_)
Split(p) == LET i == First(p, {Slash}) IN IF i = 0 THEN <<p>> ELSE <<Upto(p, i - 1)>> \o Split(From(p, i + 1))
One == <<Dot>>
Two == <<Dot, Dot>>
IsAbs(p) == p # <<>> /\ p[1] = Slash
(* what a path denotes: from the root or from here, ups levels up, then the  *)
(* names st; dir: a directory rather than what is in it                      *)
RECURSIVE Walk(_, _, _)
Walk(abs, d, segs) ==
  IF segs = <<>> THEN d
  ELSE LET x == segs[1]
           n == Len(d.st)
       IN Walk(abs, IF x = <<>> \/ x = One THEN d
                    ELSE IF x # Two THEN [d EXCEPT !.st = Append(@, x)]
                    ELSE IF n > 0 THEN [d EXCEPT !.st = Upto(@, n - 1)]
                    ELSE IF abs THEN d ELSE [d EXCEPT !.ups = @ + 1], Tail(segs))
Denote(p) ==
  LET segs == Split(p)
      abs == IsAbs(p)
      w == Walk(abs, [ups |-> 0, st |-> <<>>], segs)
      l == segs[Len(segs)]
  IN [abs |-> abs, ups |-> w.ups, st |-> w.st, dir |-> l \in {<<>>, One, Two} \/ w.st = <<>>]
(* nothing left to remove *)
IsNormal(p) ==
  LET segs == Split(p)
      n == Len(segs)
      body == IF IsAbs(p) THEN Tail(segs) ELSE segs
      m == Len(body)
  IN /\ \A i \in 1..(m - 1) : body[i] # <<>>
     /\ \A i \in 1..m : body[i] = One => (i = 1 /\ m > 1 /\ First(body[2], {Colon}) # 0)
     /\ \A i \in 2..m : body[i] = Two => body[i - 1] = Two
Same(x, y) == Denote(x) = Denote(y)
(* the same URI up to what its path denotes *)
Alike(x, y) == [x EXCEPT !.p = <<>>] = [y EXCEPT !.p = <<>>] /\ Same(x.p, y.p)

(* -------------------------------------------------------------- references *)
IsNull(x) == x.s = <<>> /\ ~HasAuth(x) /\ x.p = <<>> /\ x.q = <<>> /\ x.f = <<>>
(* RFC 3986, 5.2.2 (dot segments are removed by Denote) *)
Resolve(b, r) ==
  IF r.s # <<>> THEN r
  ELSE IF HasAuth(r) THEN [r EXCEPT !.s = b.s]
  ELSE IF r.p = <<>> THEN [b EXCEPT !.q = IF r.q # <<>> THEN r.q ELSE b.q, !.f = r.f]
  ELSE [b EXCEPT !.q = r.q, !.f = r.f,
                 !.p = IF IsAbs(r.p) THEN r.p
                       ELSE IF b.p = <<>> /\ HasAuth(b) THEN <<Slash>> \o r.p
                       ELSE Upto(b.p, Last(b.p, {Slash})) \o r.p]
(* a reference that leads from b to t exists *)
Dir(p) == Upto(p, Last(p, {Slash}))
RECURSIVE Common(_, _)
Common(x, y) == IF x = <<>> \/ y = <<>> \/ x[1] # y[1] THEN 0 ELSE 1 + Common(Tail(x), Tail(y))
Reachable(b, t) ==
  \/ t.s # <<>>
  \/ HasAuth(t) /\ b.s = <<>>
  \/ /\ b.s = <<>> /\ SameAuth(b, t) /\ t.p # <<>>
     /\ \/ IsAbs(t.p)
        \/ ~IsAbs(b.p) /\ (b.p # <<>> \/ ~HasAuth(b)) /\ Denote(Dir(b.p)).ups <= Denote(t.p).ups
(* the path of a relative reference from the directory b to the path t *)
RECURSIVE Ups(_)
Ups(n) == IF n = 0 THEN <<>> ELSE <<Dot, Dot, Slash>> \o Ups(n - 1)
RECURSIVE Glue(_)
Glue(st) == IF st = <<>> THEN <<>> ELSE st[1] \o <<Slash>> \o Glue(Tail(st))
RelPath(b, t) ==
  LET x == Denote(Dir(b))
      y == Denote(t)
      k == IF x.ups = y.ups THEN Common(x.st, IF y.dir THEN y.st ELSE Upto(y.st, Len(y.st) - 1)) ELSE 0
      g == Ups(y.ups - x.ups) \o Ups(Len(x.st) - k) \o Glue(From(y.st, k + 1))
      r == IF y.dir THEN g ELSE Upto(g, Len(g) - 1)
  IN IF x.abs # y.abs THEN t ELSE IF r = <<>> THEN <<Dot, Slash>> ELSE r
Relativize(b, t) ==
  IF t.s # b.s \/ ~SameAuth(b, t) \/ (IsAbs(b.p) # IsAbs(t.p)) \/ Denote(t.p).ups < Denote(Dir(b.p)).ups THEN t
  ELSE [s |-> <<>>, u |-> <<>>, w |-> <<>>, h |-> <<>>, t |-> <<>>, p |-> RelPath(b.p, t.p), q |-> t.q, f |-> t.f]
(* a normal path for what a path denotes *)
Canon(p) ==
  LET d == Denote(p)
      g == Ups(d.ups) \o Glue(d.st)
      r == IF d.dir \/ g = <<>> THEN g ELSE Upto(g, Len(g) - 1)
  IN IF d.abs THEN <<Slash>> \o r ELSE r
(* the result of an operation *)
ReplacePrefix(x, o, n) ==
  IF x.s # o.s \/ ~SameAuth(x, o) \/ Len(o.p) > Len(x.p) \/ Upto(x.p, Len(o.p)) # o.p THEN <<>>
  ELSE <<[n EXCEPT !.p = @ \o From(x.p, Len(o.p) + 1), !.q = x.q, !.f = x.f]>>
=============================================================================
