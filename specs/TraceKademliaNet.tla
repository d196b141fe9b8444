-------------------------- MODULE TraceKademliaNet --------------------------
(* Messages carried between several real DHT routers (C09).                 *)
EXTENDS Kademlia, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k
vars == <<t, k>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
H == o.hops
N == Len(H)
Act(h) == Els(SubSeq(h.tab.all, 1, h.tab.act))
Ups(h) == SelectSeq(h.ups, LAMBDA x : x.k # "list")
HopsOf(h) == NextHops(c.cb, h.at, Act(h), Els(h.tab.con), o.key, h.f)
StopOK(h) == MayEnd(c.cb, h.at, Act(h), Els(h.tab.con), o.key)
Sends(h) == \E x \in HopsOf(h) : h.outs = <<[t |-> x, k |-> o.op, g |-> o.g, key |-> o.key, m |-> o.m]>>
HopOK(i) == LET h == H[i] IN
  IF i = 1 THEN Ups(h) = <<>> /\ (IF h.at = o.key \/ HopsOf(h) = {} THEN h.outs = <<>> ELSE Sends(h))
  ELSE IF o.op = "direct" THEN
       IF h.at = o.key THEN h.outs = <<>> /\ Ups(h) = <<[k |-> "dest", g |-> o.g, f |-> h.f, m |-> o.m]>>
       ELSE Ups(h) = <<>> /\ ((h.outs = <<>> /\ StopOK(h)) \/ Sends(h))
  ELSE \/ /\ StopOK(h) /\ h.outs = <<>> /\ ~FinerLeft(c.cb, h.at, Act(h), Len(h.tab.b) - 1, o.key, h.f)
          /\ Ups(h) = <<IF o.key = h.at THEN [k |-> "dest", g |-> o.g, f |-> h.f, m |-> o.m]
                        ELSE [k |-> "closest", g |-> o.g, f |-> h.f, key |-> o.key, m |-> o.m]>>
       \/ Sends(h) /\ Ups(h) = <<[k |-> "routing", g |-> o.g, f |-> h.f, t |-> h.outs[1].t, key |-> o.key, m |-> o.m]>>
Judge == /\ \A i \in 1..N : HopOK(i)
         /\ \A i, j \in 1..N : i # j => H[i].at # H[j].at
         /\ \A i \in 2..N : H[i].f = H[i-1].at
         \* it ends: the last one did not send it on to one of the nodes
         /\ H[N].outs = <<>> \/ (Len(H[N].outs) = 1 /\ H[N].outs[1].t > c.n)
Init == t \in 1..Len(Traces) /\ k = 0
Next == \/ k < Len(S) /\ o.op \in {"closest", "direct"} /\ Judge = TRUE /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
