---------------------------- MODULE RandomConnMC ----------------------------
(* Exhaustive: node 1 with its network below, messages between the two      *)
(* under way in both directions; peers connect, leave, drop and send.       *)
EXTENDS RandomConn, TLC
CONSTANTS N, Q, EV
c == [need |-> <<0, 1, 2, 3, 3, 4>>]
VARIABLES st, net, up, down, w, left
vars == <<st, net, up, down, w, left>>
O == 2..N
Ev(op, f) == [op |-> op, f |-> f]
\* net: what the network has connections to; up, down: queues
Init == st = Empty /\ net = {} /\ up = <<>> /\ down = <<>> /\ w = 0 /\ left = EV
Room(n) == Len(up) + n <= Q
Use(n) == left >= n /\ left' = left - n
Peer == /\ Use(1) /\ Room(1) /\ UNCHANGED <<st, down, w>>
        /\ \E f \in O :
           \/ f \notin net /\ net' = net \cup {f} /\ up' = Append(up, Ev("con", f))
           \/ f \in net /\ net' = net \ {f} /\ up' = Append(up, Ev("disc", f))
           \/ f \in net /\ net' = net /\ up' = Append(up, Ev("msg", f))
           \/ f \in net /\ net' = net /\ up' = Append(up, Ev("drop", f))
List == /\ Use(1) /\ Room(1) /\ UNCHANGED <<st, net, down, w>>
        /\ \E S \in SUBSET (1..N) : S # {} /\ up' = Append(up, [op |-> "list", l |-> [i \in 1..Cardinality(S) |-> <<SetToSeq(S)[i], 1>>]])
Do(o, D) == LET s2 == After(st, o) IN
  \E S \in SUBSET Unused(s2) : /\ AskOK(c, s2, o.op, S)
     /\ st' = Asked(s2, S) /\ down' = down \o D \o [i \in 1..Cardinality(S) |-> Ev("con", SetToSeq(S)[i])]
     /\ w' = IF S # {} \/ ~Waiting(c, st') THEN 0 ELSE IF o.op = "tick" THEN w + 1 ELSE w
Take == /\ up # <<>> /\ up' = Tail(up) /\ UNCHANGED <<net, left>>
        /\ Do(Head(up), IF Head(up).op = "drop" THEN <<Ev("disc", Head(up).f)>> ELSE <<>>)
Local == /\ Use(1) /\ UNCHANGED <<net, up>>
         /\ \/ \E f \in O : Do(Ev("fail", f), <<Ev("disc", f)>>)
            \/ \E f \in O : Do(Ev("send", f), <<>>)
            \/ Do(Ev("tick", 0), <<>>) /\ w' < 10
Network == /\ down # <<>> /\ down' = Tail(down) /\ UNCHANGED <<st, w, left>> /\ Room(1)
           /\ LET o == Head(down) IN
              \/ o.op = "con" /\ o.f \in net /\ UNCHANGED <<net, up>>
              \/ o.op = "con" /\ o.f \notin net /\ \/ UNCHANGED <<net, up>>
                                                   \/ net' = net \cup {o.f} /\ up' = Append(up, Ev("con", o.f))
              \/ o.op = "disc" /\ net' = net \ {o.f} /\ up' = IF o.f \in net THEN Append(up, o) ELSE up
Next == Peer \/ List \/ Take \/ Local \/ Network
Spec == Init /\ [][Next]_vars
Lists == ListsOK(st)
\* with nothing under way the connected nodes are those of the network
Agrees == up = <<>> /\ down = <<>> => st.C = net
=============================================================================
