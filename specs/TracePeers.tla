------------------------------ MODULE TracePeers ----------------------------
(* Recorded histories of one real network layer, everything below it and    *)
(* the signalling server simulated. (C13)                                   *)
EXTENDS Peers, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, P, tk
vars == <<t, k, P, tk>>
n == Traces[t].cfg.n
S == Traces[t].steps
o == S[k+1]
Els(s) == {s[i] : i \in 1..Len(s)}
P2 == After(P, o)
Pick(q, kinds) == SelectSeq(q, LAMBDA x : x.k \in kinds)
\* reported to the upper layer
Events == LET c == Told(P, P2) IN IF c = {} THEN <<>> ELSE <<Event(P2, CHOOSE i \in c : TRUE)>>
Rest == CASE o.op = "text" -> <<[k |-> "msg", f |-> o.f, m |-> o.m]>>
          [] o.op = "state" -> <<[k |-> "state", f |-> o.f, dir |-> o.dir, m |-> o.m]>>
          [] o.op = "wsList" -> <<[k |-> "list", l |-> o.l]>>
          [] o.op = "wsConfig" -> <<[k |-> "config", m |-> o.m]>>
          [] o.op = "wsError" -> <<[k |-> "error", m |-> o.m]>>
          [] OTHER -> <<>>
\* given to the connections
Con == [k |-> "connect", t |-> o.f]
Rtc == CASE o.op = "connect" -> IF Up(P[o.f]) THEN <<>> ELSE <<Con>>
         [] o.op = "send" -> (IF Up(P[o.f]) THEN <<>> ELSE <<Con>>) \o <<[k |-> "text", t |-> o.f, m |-> o.m]>>
         [] o.op = "disconnect" -> IF Up(P[o.f]) THEN <<[k |-> "disconnect", t |-> o.f]>> ELSE <<>>
         [] o.op = "wsSetup" -> IF DirOf(o.i, o.j) = 0 THEN <<>>
                                ELSE <<[k |-> "setup", t |-> Other(o.i, o.j), dir |-> DirOf(o.i, o.j), r |-> o.r, m |-> o.m]>>
         [] OTHER -> <<>>
\* sent to the signalling server
ListReq == [k |-> "listReq"]
Ws == CASE o.op = "rtcSetup" -> <<[k |-> "setup", i |-> IF o.dir = Out THEN 1 ELSE o.f, j |-> IF o.dir = Out THEN o.f ELSE 1, r |-> o.r, m |-> o.m]>>
        [] o.op = "wsChallenge" -> <<[k |-> "announce", ok |-> TRUE], ListReq>>
        [] o.op = "stats" -> <<[k |-> "stats", m |-> o.m]>>
        [] o.op = "update" -> <<ListReq>>
        [] OTHER -> <<>>
Judge ==
  \* the published list of connected nodes
  /\ Els(o.con) = {i \in DOMAIN P2 : Up(P2[i])} /\ Len(o.con) = Cardinality(Els(o.con))
  /\ Pick(o.up, {"con", "disc"}) = Events
  /\ IF o.op = "junkText" THEN \A x \in Els(o.up) : x.k = "msg" /\ x.f = o.f
     ELSE SelectSeq(o.up, LAMBDA x : x.k \notin {"con", "disc"}) = Rest
  /\ o.rtc = Rtc
  /\ IF o.op = "ticks" THEN o.ws = [i \in 1..((tk + o.r) \div 60) |-> ListReq] ELSE o.ws = Ws
Ops == {"connect", "send", "disconnect", "wsSetup", "rtcUp", "rtcDown", "rtcSetup", "text", "junkText", "state", "wsList", "wsConfig", "wsError", "wsJunk", "wsChallenge", "stats", "update", "ticks"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ P = [i \in 2..n |-> <<0, 0>>] /\ tk = 0
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE
           /\ k' = k + 1 /\ t' = t /\ P' = P2 /\ tk' = IF o.op = "ticks" THEN (tk + o.r) % 60 ELSE tk
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
