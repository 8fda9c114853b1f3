----------------------------- MODULE StoreCrashMC -----------------------------
(* Design of the database store with respect to a crash: operations are issued *)
(* on keys (the features of the objects), applied in the background in their   *)
(* order, each made of several statements of the database; a wait acknowledges *)
(* the operations issued before it. The process may be killed at any moment:   *)
(* what was committed stays.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, MaxOps, MaxParts, MaxCrash,
          Atomic,    \* the statements of an operation are committed together
          WaitAll    \* a wait waits for every operation, not only for the ones that are running
VARIABLES issued,  \* the operations of each key: the number of their statements
          done,    \* how many operations of each key are done
          part,    \* how many statements of the next one are done (not committed if Atomic)
          disk,    \* committed: <<operations, statements of the next one>>
          target,  \* of the wait in progress, or <<>>
          acked,   \* operations acknowledged by the completed waits
          crashes
vars == <<issued, done, part, disk, target, acked, crashes>>
Zero == [k \in Keys |-> 0]
Init == /\ issued = [k \in Keys |-> <<>>] /\ done = Zero /\ part = Zero /\ disk = [k \in Keys |-> <<0, 0>>]
        /\ target = <<>> /\ acked = Zero /\ crashes = 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(issued[k]) + Sum(S \ {k})
Issue(k) == /\ Sum(Keys) < MaxOps
            /\ \E n \in 1..MaxParts : issued' = [issued EXCEPT ![k] = Append(@, n)]
            /\ UNCHANGED <<done, part, disk, target, acked, crashes>>
Step(k) ==
  /\ done[k] < Len(issued[k])
  /\ LET last == part[k] + 1 = issued[k][done[k] + 1]
     IN /\ done' = [done EXCEPT ![k] = IF last THEN @ + 1 ELSE @]
        /\ part' = [part EXCEPT ![k] = IF last THEN 0 ELSE @ + 1]
        /\ disk' = [disk EXCEPT ![k] = IF last THEN <<done[k] + 1, 0>> ELSE IF Atomic THEN @ ELSE <<done[k], part[k] + 1>>]
  /\ UNCHANGED <<issued, target, acked, crashes>>
Running(k) == part[k] > 0
StartWait == /\ target = <<>>
             /\ target' = [k \in Keys |-> IF WaitAll THEN Len(issued[k]) ELSE IF Running(k) THEN done[k] + 1 ELSE done[k]]
             /\ UNCHANGED <<issued, done, part, disk, acked, crashes>>
(* what the caller believes once the wait has returned: what was issued when it started is there *)
VARIABLE asked
StartWait2 == StartWait /\ asked' = [k \in Keys |-> Len(issued[k])]
EndWait == /\ target # <<>> /\ \A k \in Keys : done[k] >= target[k]
           /\ acked' = [k \in Keys |-> IF acked[k] > asked[k] THEN acked[k] ELSE asked[k]]
           /\ target' = <<>> /\ UNCHANGED <<issued, done, part, disk, crashes, asked>>
(* killed and opened again: the operations that were lost were never issued *)
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ issued' = [k \in Keys |-> SubSeq(issued[k], 1, disk[k][1])]
         /\ done' = [k \in Keys |-> disk[k][1]] /\ part' = Zero /\ target' = <<>>
         /\ UNCHANGED <<disk, acked>> /\ asked' = Zero
Next == \/ \E k \in Keys : (Issue(k) \/ Step(k)) /\ UNCHANGED asked
        \/ StartWait2 \/ EndWait \/ Crash
Spec == Init /\ asked = Zero /\ [][Next]_<<vars, asked>>
(* whenever the process is killed *)
Prefix == \A k \in Keys : disk[k][2] = 0 /\ disk[k][1] <= Len(issued[k])
Acknowledged == \A k \in Keys : disk[k][1] >= acked[k]
===============================================================================
