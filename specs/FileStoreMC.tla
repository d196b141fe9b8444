----------------------------- MODULE FileStoreMC ----------------------------
(* A value is written piece by piece to a temporary file, which then takes  *)
(* the place of the old one; the process can die, and the disk can be full, *)
(* at every point. With INPLACE the old file is overwritten instead: then   *)
(* the invariants do not hold (a test of the model).*)
EXTENDS Naturals, Sequences
CONSTANTS NK, LEN, OPS, INPLACE
VARIABLES file, temp, busy, want, ops, alive, acked
vars == <<file, temp, busy, want, ops, alive, acked>>
\* values: sequences of LEN copies of the number of the write
Val(v) == [i \in 1..LEN |-> v]
None == <<0>>
Begin == /\ alive /\ busy = 0 /\ ops < OPS /\ ops' = ops + 1
         /\ \E k \in 1..NK : busy' = k /\ want' = ops'
            /\ IF INPLACE THEN file' = [file EXCEPT ![k] = <<>>] /\ UNCHANGED temp ELSE temp' = [temp EXCEPT ![k] = <<>>] /\ UNCHANGED file
         /\ UNCHANGED <<alive, acked>>
Target(k) == IF INPLACE THEN file[k] ELSE temp[k]
Piece == /\ alive /\ busy # 0 /\ Len(Target(busy)) < LEN
         /\ IF INPLACE THEN file' = [file EXCEPT ![busy] = Append(@, want)] /\ UNCHANGED temp
            ELSE temp' = [temp EXCEPT ![busy] = Append(@, want)] /\ UNCHANGED file
         /\ UNCHANGED <<busy, want, ops, alive, acked>>
End == /\ alive /\ busy # 0 /\ Len(Target(busy)) = LEN
       /\ IF INPLACE THEN UNCHANGED <<file, temp>> ELSE file' = [file EXCEPT ![busy] = temp[busy]] /\ temp' = [temp EXCEPT ![busy] = None]
       /\ acked' = [acked EXCEPT ![busy] = want] /\ busy' = 0 /\ UNCHANGED <<want, ops, alive>>
Full == alive /\ busy # 0 /\ busy' = 0 /\ UNCHANGED <<file, temp, want, ops, alive, acked>>
Die == alive /\ alive' = FALSE /\ UNCHANGED <<file, temp, busy, want, ops, acked>>
Restart == ~alive /\ alive' = TRUE /\ busy' = 0 /\ UNCHANGED <<file, temp, want, ops, acked>>
Delete == /\ alive /\ busy = 0 /\ ops < OPS /\ ops' = ops + 1 /\ \E k \in 1..NK : file' = [file EXCEPT ![k] = None] /\ acked' = [acked EXCEPT ![k] = 0]
          /\ UNCHANGED <<temp, busy, want, alive>>
Init == file = [k \in 1..NK |-> None] /\ temp = [k \in 1..NK |-> None] /\ busy = 0 /\ want = 0 /\ ops = 0 /\ alive = TRUE /\ acked = [k \in 1..NK |-> 0]
Next == Begin \/ Piece \/ End \/ Full \/ Die \/ Restart \/ Delete
Spec == Init /\ [][Next]_vars
Is(k, v) == file[k] = IF v = 0 THEN None ELSE Val(v)
Last == \A k \in 1..NK : k # busy => Is(k, acked[k])
OldOrNew == busy # 0 => Is(busy, acked[busy]) \/ Is(busy, want)
=============================================================================
