----------------------------- MODULE CodecTrace -----------------------------
(* Recorded histories of edits, saves and loads of two documents, and of     *)
(* documents that are cut or fail to be read or written.                     *)
EXTENDS Codec, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Watch == {w \in {"codec", "cut", "fault"} : \E k \in 1..Len(TraceLog[1].facets) : TraceLog[1].facets[k] = w}
VARIABLES i, files, skip, bad      \* files[d]: the saved document, or <<>>
Say(d, want) ==
  PrintT(ToString(<<IF d \cap Watch # {} THEN "REJECTED" ELSE "SKIPPED", i, d>>) \o " WANT " \o ToJson(want))
Init == i = 2 /\ files = [d \in {"A", "B"} |-> <<>>] /\ skip = FALSE /\ bad = {}
Take(fs, d, want) == files' = fs /\ skip' = FALSE /\ bad' = d \cap Watch /\ (d # {} => Say(d, want))
(* the nodes two documents differ in *)
Diff(x, y) ==
  IF x.roots # y.roots \/ Len(x.nodes) # Len(y.nodes) THEN <<"shape", x.roots, y.roots, Len(x.nodes), Len(y.nodes)>>
  ELSE LET q == {k \in 1..Len(x.nodes) : x.nodes[k] # y.nodes[k]}
           k == CHOOSE k \in q : \A m \in q : k <= m
           fx == {x.nodes[k].f[j] : j \in 1..Len(x.nodes[k].f)}
           fy == {y.nodes[k].f[j] : j \in 1..Len(y.nodes[k].f)}
       IN <<"node", k, x.nodes[k].c, y.nodes[k].c, x.nodes[k].i, y.nodes[k].i, fx \ fy, fy \ fx>>
Loaded(e, d) ==
  LET r == Dec(files[d])
      want == View(r.doc, e.fmt, e.ids)
      got == View(DocOf(e.w, d), e.fmt, e.ids)
  IN IF got = want THEN <<>> ELSE Diff(want, got)
InDocument(q) == \E k \in 1..Len(q) : q[k].t = "value" /\ \E j \in 1..Len(q) : q[k].v = NumOf[j]
Step(e) ==
  CASE e.ev = "save" ->
         LET doc == DocOf(e.w, e.doc)
             q == Enc(doc)
             ok == /\ e.same
                   /\ IF Dangling(doc) \/ (e.fmt = "sql" /\ Foreign(doc)) THEN e.errs # <<>> ELSE e.errs = <<>> /\ Dec(q) = [ok |-> TRUE, doc |-> doc]
         IN Take([files EXCEPT ![e.doc] = q], IF ok THEN {} ELSE {"codec"}, <<e.errs, e.same>>)
    [] e.ev = "load" ->
         LET q == [k \in 1..Len(e.docs) |-> Loaded(e, e.docs[k])]
             ok == e.errs = <<>> /\ \A k \in 1..Len(q) : q[k] = <<>>
         IN Take(files, IF ok THEN {} ELSE {"codec"}, <<e.errs, q>>)
    [] e.ev = "object" ->
         LET q == Loaded(e, "A")
         \* an object that is decoded on its own is in no resource yet: in the text formats the
         \* references within its document cannot be resolved then, which has to be reported
         IN Take(files, IF IF e.errs = <<>> THEN q = <<>> ELSE e.fmt \in {"xml", "xmi"} /\ InDocument(files["A"]) THEN {} ELSE {"codec"}, <<e.errs, q>>)
    [] e.ev \in {"again", "det"} -> Take(files, IF e.eq THEN {} ELSE {"codec"}, "same bytes")
    [] e.ev = "cuts" ->
         \* a cut that is not reported took away nothing of the model; in the text formats nothing at
         \* all is the document of an empty model
         LET q == SelectSeq(e.bad, LAMBDA b : ~(e.how = "cut" /\ (b.same \/ (b.at = 0 /\ b.why = "no error" /\ e.fmt \in {"xml", "xmi"}))))
         IN Take(files, IF q = <<>> THEN {} ELSE IF e.how = "cut" THEN {"cut"} ELSE {"fault"}, q)
    [] e.ev = "crash" -> Take(files, IF e.what = "cuts" THEN {"cut"} ELSE {"codec"}, e.why)
    [] e.ev = "hang" -> Take(files, {"codec", "cut", "fault"}, e.why)
Next == i <= Len(TraceLog) /\ i' = i + 1 /\ Step(TraceLog[i])
Spec == Init /\ [][Next]_<<i, files, skip, bad>>
NotBad == bad = {}
Accepted == TLCGet("stats").diameter = Len(TraceLog)
=============================================================================
