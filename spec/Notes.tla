-------------------------------- MODULE Notes --------------------------------
(* Change notifications as edits: the meaning of a notification n on the     *)
(* value q (a sequence) of its feature is Replay(many, n, q), defined when    *)
(* Fits(many, n, q), i.e. when what the notification says about the old state *)
(* is true of q.                                                             *)
EXTENDS SeqOps

(* delete from q the elements at the 0-based positions ps *)
DeletePositions(q, ps) ==
  LET keep == {k \in 1..Len(q) : ~In(k - 1, ps)}
      RECURSIVE Take(_)
      Take(k) == IF k = 0 THEN <<>> ELSE IF k \in keep THEN Append(Take(k - 1), q[k]) ELSE Take(k - 1)
  IN Take(Len(q))

Fits(many, n, q) ==
  CASE n.t = "ADD" -> many /\ Len(n.new) = 1 /\ n.old = <<>> /\ n.pos \in 0..Len(q)
    [] n.t = "ADD_MANY" -> many /\ n.new # <<>> /\ n.old = <<>> /\ n.pos \in 0..Len(q)
    [] n.t = "REMOVE" -> many /\ Len(n.old) = 1 /\ n.new = <<>> /\ n.pos \in 0..(Len(q) - 1) /\ q[n.pos + 1] = n.old[1]
    [] n.t = "REMOVE_MANY" ->
         /\ many
         /\ IF n.ps = <<>> THEN n.old = q
            ELSE /\ Len(n.ps) = Len(n.old)
                 /\ NoDup(n.ps)
                 /\ \A k \in 1..Len(n.ps) : n.ps[k] \in 0..(Len(q) - 1) /\ q[n.ps[k] + 1] = n.old[k]
    [] n.t = "SET" -> IF many THEN /\ n.pos \in 0..(Len(q) - 1) /\ <<q[n.pos + 1]>> = n.old /\ Len(n.new) = 1
                      ELSE n.old = q /\ Len(n.new) <= 1
    [] n.t = "RESOLVE" -> IF many THEN /\ n.pos \in 0..(Len(q) - 1) /\ <<q[n.pos + 1]>> = n.old /\ Len(n.new) = 1
                      ELSE n.old = q /\ Len(n.new) = 1
    [] n.t = "UNSET" -> n.old = q /\ n.new = <<>>
    [] n.t = "MOVE" -> /\ many /\ n.pos \in 0..(Len(q) - 1) /\ Len(n.old) = 1 /\ n.old[1] \in 0..(Len(q) - 1)
                       /\ <<q[n.old[1] + 1]>> = n.new
    [] OTHER -> FALSE

Replay(many, n, q) ==
  CASE n.t \in {"ADD", "ADD_MANY"} -> InsertSeq(q, n.pos, n.new)
    [] n.t = "REMOVE" -> DeleteAt(q, n.pos)
    [] n.t = "REMOVE_MANY" -> IF n.ps = <<>> THEN <<>> ELSE DeletePositions(q, n.ps)
    [] n.t \in {"SET", "RESOLVE"} -> IF many THEN [q EXCEPT ![n.pos + 1] = n.new[1]] ELSE n.new
    [] n.t = "UNSET" -> n.new
    [] n.t = "MOVE" -> MoveIn(q, n.old[1], n.pos)
=============================================================================
