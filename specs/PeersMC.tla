------------------------------- MODULE PeersMC ------------------------------
(* Exhaustive: two nodes, each with its network layer and below it two      *)
(* one-way connections to the other which are set up by relayed messages,   *)
(* get lost and are set up again; either side connects and disconnects.     *)
(* x[d]: the real channel created by node d: 0 none, 1 being set up, 2 open *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS EV, Q
VARIABLES P, told, sig, up, ch, left
vars == <<P, told, sig, up, ch, left>>
PP == INSTANCE Peers
A(n) == [i \in {2} |-> P[n]]
\* an operation at node n, seen as node 1 talking to node 2
Do(n, o) == LET P2 == PP!After(A(n), o) IN
  /\ P' = [P EXCEPT ![n] = P2[2]]
  /\ told' = [told EXCEPT ![n] = IF PP!Told(A(n), P2) = {} THEN @ ELSE Append(@, IF PP!Up(P2[2]) THEN "con" ELSE "disc")]
Init == P = [n \in 1..2 |-> <<0, 0>>] /\ told = [n \in 1..2 |-> <<>>] /\ sig = [n \in 1..2 |-> <<>>] /\ up = [n \in 1..2 |-> <<>>]
        /\ ch = [d \in 1..2 |-> 0] /\ left = EV
Use == left > 0 /\ left' = left - 1
Dir(n, d) == IF n = d THEN PP!Out ELSE PP!In
Connect(n) == /\ Use /\ Do(n, [op |-> "connect", f |-> 2]) /\ UNCHANGED up /\ Len(sig[3 - n]) < Q
              /\ IF PP!Up(P[n]) THEN UNCHANGED <<sig, ch>>
                 ELSE sig' = [sig EXCEPT ![3 - n] = Append(@, [d |-> n, m |-> "init"])] /\ ch' = [ch EXCEPT ![n] = 1]
Disconnect(n) == /\ Use /\ Do(n, [op |-> "disconnect", f |-> 2]) /\ UNCHANGED <<sig, up>>
                 /\ ch' = IF PP!Up(P[n]) THEN [d \in 1..2 |-> 0] ELSE ch
\* a relayed message of the set-up of channel d arrives at node n
Setup(n) == /\ sig[n] # <<>> /\ left' = left /\ up' = up
            /\ \E m \in {Head(sig[n])} :
                 /\ Do(n, [op |-> "wsSetup", f |-> 2, i |-> IF m.d = n THEN 1 ELSE 2, j |-> IF m.d = n THEN 2 ELSE 1])
                 /\ CASE m.m = "init" -> sig' = [sig EXCEPT ![n] = Tail(@), ![3 - n] = Append(@, [d |-> m.d, m |-> "offer"])] /\ ch' = ch
                      [] m.m = "offer" -> sig' = [sig EXCEPT ![n] = Tail(@), ![3 - n] = Append(@, [d |-> m.d, m |-> "answer"])] /\ ch' = ch
                      [] m.m = "answer" -> sig' = [sig EXCEPT ![n] = Tail(@)] /\ ch' = [ch EXCEPT ![m.d] = IF @ = 1 THEN 2 ELSE @]
Opens == \E n \in 1..2, d \in 1..2 : ch[d] = 2 /\ P[n][Dir(n, d)] # 2 /\ Do(n, [op |-> "rtcUp", f |-> 2, dir |-> Dir(n, d)]) /\ UNCHANGED <<sig, up, ch, left>>
Closed == \E n \in 1..2, d \in 1..2 : ch[d] = 0 /\ P[n][Dir(n, d)] = 2 /\ Do(n, [op |-> "rtcDown", f |-> 2, dir |-> Dir(n, d)]) /\ UNCHANGED <<sig, up, ch, left>>
Lost == Use /\ \E d \in 1..2 : ch[d] = 2 /\ ch' = [ch EXCEPT ![d] = 0] /\ UNCHANGED <<P, told, sig, up>>
Next == (\E n \in 1..2 : Connect(n) \/ Disconnect(n) \/ Setup(n)) \/ Opens \/ Closed \/ Lost
Spec == Init /\ [][Next]_vars
Alternate == \A n \in 1..2 : /\ \A i \in 1..Len(told[n]) : told[n][i] = IF i % 2 = 1 THEN "con" ELSE "disc"
                             /\ PP!Up(P[n]) = (Len(told[n]) % 2 = 1)
\* when nothing is under way both sides agree whether they are connected
Agree == sig = [n \in 1..2 |-> <<>>] /\ ~ENABLED (Opens \/ Closed) => PP!Up(P[1]) = PP!Up(P[2])
=============================================================================
