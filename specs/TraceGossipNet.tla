--------------------------- MODULE TraceGossipNet ---------------------------
(* Recorded histories of several real gossip nodes: after ticks without     *)
(* losses all hold the same newest events, and no more are transferred.     *)
EXTENDS Gossip, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, offered
vars == <<t, k, offered>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Ops == {"start", "add", "tick", "deliver", "lose", "dup", "skip", "round"}
offered2 == offered \cup (CASE o.op = "add" -> {o.e} [] o.op = "start" -> ToSet(o.own) [] OTHER -> {})
Held(i) == ToSet(o.held[i])
Judge == /\ o.op \in Ops
         /\ \A i \in 1..Len(o.held) : Held(i) \subseteq offered2
         /\ o.op = "round" /\ k + 1 = Len(S) =>
              /\ o.events = 0
              /\ \A i \in 1..Len(o.held) : IsNewest(c, offered2, Held(i)) /\ Held(i) = Held(1)
Init == t \in 1..Len(Traces) /\ k = 0 /\ offered = {}
Next == \/ k < Len(S) /\ Judge = TRUE /\ k' = k + 1 /\ t' = t /\ offered' = offered2
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
