-------------------------------- MODULE Peers -------------------------------
(* The network layer of node 1: for every other node the state of the two   *)
(* directions of the connection: 0 nothing, 1 being set up, 2 connected.    *)
(*  P: node -> <<incoming, outgoing>>; events are records [op, f, dir, ..]  *)
EXTENDS Integers, Sequences, FiniteSets
In == 1
Out == 2
Up(p) == 2 \in {p[1], p[2]}
Only(p, d) == p[d] = 2 /\ p[3 - d] # 2
\* direction of a set-up message between i (initiator) and j (follower), 0: not for us
DirOf(i, j) == IF i = 1 THEN Out ELSE IF j = 1 THEN In ELSE 0
Other(i, j) == IF i = 1 THEN j ELSE i
\* the state of both directions after an operation
After(P, o) ==
  CASE o.op = "connect" \/ o.op = "send" -> IF Up(P[o.f]) THEN P ELSE [P EXCEPT ![o.f][Out] = 1]
    [] o.op = "disconnect" -> IF Up(P[o.f]) THEN [P EXCEPT ![o.f] = <<0, 0>>] ELSE P
    [] o.op = "wsSetup" -> IF DirOf(o.i, o.j) = 0 THEN P ELSE [P EXCEPT ![Other(o.i, o.j)][DirOf(o.i, o.j)] = 1]
    [] o.op = "rtcUp" -> [P EXCEPT ![o.f][o.dir] = 2]
    [] o.op = "rtcDown" -> [P EXCEPT ![o.f][o.dir] = 0]
    [] OTHER -> P
\* what has to be reported: nothing or a change
Told(P, P2) == {i \in DOMAIN P : Up(P[i]) # Up(P2[i])}
Event(P2, i) == [k |-> IF Up(P2[i]) THEN "con" ELSE "disc", f |-> i]
=============================================================================
