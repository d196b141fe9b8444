------------------------------ MODULE PeersGen ------------------------------
EXTENDS Peers, Json, IOUtils, TLC
VARIABLES n, ops, P, hist, done
vars == <<n, ops, P, hist, done>>
R(S) == RandomElement(S)
Nodes == 2..n
Ups == {i \in Nodes : Up(P[i])}
Mid == {i \in Nodes : ~Up(P[i]) /\ P[i] # <<0, 0>>}
Prefer(S) == IF S # {} /\ R(1..10) <= 6 THEN R(S) ELSE R(Nodes)
Do(o) == P' = After(P, o) /\ hist' = Append(hist, o)
One == \E w \in {R(1..40)}, a \in {R(Nodes)}, b \in {R(Nodes)}, d \in {R(1..2)}, r \in {R(1..4)} :
  \/ w <= 3 /\ Do([op |-> "connect", f |-> a])
  \/ w \in 4..7 /\ \E f \in {Prefer(Ups)} : Do([op |-> "send", f |-> f])
  \/ w \in 8..10 /\ \E f \in {Prefer(Ups \cup Mid)} : Do([op |-> "disconnect", f |-> f])
  \/ w \in 11..15 /\ Do(IF R(1..6) = 1 THEN [op |-> "wsSetup", i |-> a, j |-> b, r |-> r]
                        ELSE IF d = 1 THEN [op |-> "wsSetup", i |-> 1, j |-> a, r |-> r] ELSE [op |-> "wsSetup", i |-> a, j |-> 1, r |-> r])
  \/ w \in 16..22 /\ \E f \in {Prefer(Mid)} : Do([op |-> "rtcUp", f |-> f, dir |-> d])
  \/ w \in 23..27 /\ \E f \in {Prefer(Ups)} : Do([op |-> "rtcDown", f |-> f, dir |-> d])
  \/ w \in 28..29 /\ Do([op |-> "rtcSetup", f |-> a, dir |-> d, r |-> r])
  \/ w \in 30..31 /\ Do([op |-> "text", f |-> a])
  \/ w = 32 /\ Do([op |-> "junkText", f |-> a, r |-> r])
  \/ w = 33 /\ Do([op |-> "state", f |-> a, dir |-> d])
  \/ w = 34 /\ Do([op |-> "wsList", l |-> [i \in 1..R(0..3) |-> R(1..n)]])
  \/ w = 35 /\ Do([op |-> IF r = 1 THEN "wsConfig" ELSE IF r = 2 THEN "wsError" ELSE "wsJunk", r |-> r])
  \/ w = 36 /\ Do([op |-> "wsChallenge"])
  \/ w = 37 /\ Do([op |-> IF r <= 2 THEN "stats" ELSE "update"])
  \/ w >= 38 /\ Do([op |-> "ticks", r |-> R({1, 7, 30, 59, 60, 61, 130})])
Init == n \in 2..5 /\ ops \in {20, 40, 80} /\ P = [i \in 2..n |-> <<0, 0>>] /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ One /\ UNCHANGED <<n, ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([n |-> n, ops |-> hist])) /\ UNCHANGED <<n, ops, P, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
