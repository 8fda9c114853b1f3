---------------------------- MODULE StoreSchedMC ----------------------------
(* The scheduling of background operations of the database store.  An issued   *)
(* operation is registered in the queue of every place it is about: a feature  *)
(* of an object <<o, f>>, a whole object <<o, 0>> (in its queue and the queues *)
(* of its features in use), the whole store <<0, 0>> (in every queue in use).  *)
(* It waits for the last write of each queue it is about, and, if it is a      *)
(* write, for the reads behind it; and for those of the larger places.         *)
(* Every order of issuing, starting and finishing: two operations that         *)
(* conflict never overlap and take effect in the order they were issued.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NOPS, NOBJ, NFEAT, WHOLE \* WHOLE: operations also wait for those of larger places
VARIABLES ops, queue, st
(* ops: issued operations; queue[p]: numbers of the pending ones; st: 0 issued, 1 started, 2 finished *)
Places == ({0} \X {0}) \cup ((1..NOBJ) \X (0..NFEAT))
Shapes == [w : BOOLEAN, at : {{p} : p \in Places} \cup {{<<o, 1>>, <<p, 0>>} : o \in 1..NOBJ, p \in 1..NOBJ}]
Larger(p, q) == p # q /\ (p = <<0, 0>> \/ (p[2] = 0 /\ p[1] = q[1]))
Meet(p, q) == p = q \/ Larger(p, q) \/ Larger(q, p)
Conflict(a, b) == (a.w \/ b.w) /\ \E p \in a.at, q \in b.at : Meet(p, q)
Used(p) == queue[p] # <<>>
(* the queues an operation is put in *)
Queues(a) == UNION {{p} \cup {q \in Places : Larger(p, q) /\ (Used(q) \/ (q[2] = 0 /\ \E f \in 1..NFEAT : Used(<<q[1], f>>)))} : p \in a.at}
Above(a) == IF WHOLE THEN {q \in Places : \E p \in a.at : Larger(q, p)} ELSE {}
LastWrite(p) == IF \E k \in 1..Len(queue[p]) : ops[queue[p][k]].w
                THEN CHOOSE k \in 1..Len(queue[p]) : ops[queue[p][k]].w /\ \A l \in (k + 1)..Len(queue[p]) : ~ops[queue[p][l]].w
                ELSE 0
WaitsIn(a, p) ==
  LET k == LastWrite(p)
  IN (IF k > 0 THEN {queue[p][k]} ELSE {}) \cup (IF a.w THEN {queue[p][l] : l \in (k + 1)..Len(queue[p])} ELSE {})
Issue(a) ==
  /\ Len(ops) < NOPS
  /\ ops' = Append(ops, a @@ [prev |-> UNION {WaitsIn(a, p) : p \in Queues(a) \cup Above(a)}])
  /\ queue' = [p \in Places |-> IF p \in Queues(a) THEN Append(queue[p], Len(ops) + 1) ELSE queue[p]]
  /\ st' = Append(st, 0)
Begin(n) == st[n] = 0 /\ (\A p \in ops[n].prev : st[p] = 2) /\ st' = [st EXCEPT ![n] = 1] /\ UNCHANGED <<ops, queue>>
Finish(n) == /\ st[n] = 1 /\ st' = [st EXCEPT ![n] = 2] /\ UNCHANGED ops
             /\ queue' = [p \in Places |-> SelectSeq(queue[p], LAMBDA x : x # n)]
Init == ops = <<>> /\ queue = [p \in Places |-> <<>>] /\ st = <<>>
Next == (\E a \in Shapes : Issue(a)) \/ \E n \in 1..Len(ops) : Begin(n) \/ Finish(n)
Spec == Init /\ [][Next]_<<ops, queue, st>>
Ordered == \A n \in 1..Len(ops) : st[n] # 0 => \A k \in 1..(n - 1) : Conflict(ops[k], ops[n]) => st[k] = 2
NoDeadlock == (\E n \in 1..Len(ops) : st[n] # 2) => \E n \in 1..Len(ops) : st[n] = 1 \/ (st[n] = 0 /\ \A p \in ops[n].prev : st[p] = 2)
(* a wait for everything: no operation is left in the queues once they are finished *)
Clean == (\A n \in 1..Len(ops) : st[n] = 2) => \A p \in Places : queue[p] = <<>>
=============================================================================
