------------------------------ MODULE GossipMC ------------------------------
(* Exhaustive: N nodes in a line or triangle, all placements of the events, *)
(* all orders of delivery, losses, then rounds of ticks without losses.     *)
EXTENDS Gossip, SequencesExt
CONSTANTS N, ROUNDS, RING, LOSS, BIG
c == [max |-> <<1, 2>>, events |-> <<[cat |-> 1, src |-> 1, t |-> 1], [cat |-> 1, src |-> 2, t |-> 2],
        [cat |-> 2, src |-> 1, t |-> 1], [cat |-> 2, src |-> 1, t |-> 2]>> \o (IF BIG THEN <<[cat |-> 2, src |-> 9, t |-> 1], [cat |-> 2, src |-> 2, t |-> 3]>> ELSE <<>>)]
E == 1..Len(c.events)
VARIABLES held, net, todo, round, quiet
vars == <<held, net, todo, round, quiet>>
Nb(i) == {j \in 1..N : j # i /\ (RING \/ j = i-1 \/ j = i+1)}
Init == held = [i \in 1..N |-> {}] /\ net = {} /\ todo = E /\ round = 0 /\ quiet = FALSE
\* an event enters at a node, without ties there is exactly one result
Enter == round = 0 /\ todo # {} /\ LET e == CHOOSE x \in todo : \A y \in todo : x >= y IN \E i \in 1..N :
   \E r \in AddAll(c, {<<held[i], <<>>>>}, <<e>>) :
     /\ held' = [held EXCEPT ![i] = r[1]] /\ todo' = todo \ {e}
     /\ net' = net \cup Announce(c, i, Nb(i), i, ToSet(r[2])) /\ UNCHANGED <<round, quiet>>
Orders(S) == {f \in [1..Cardinality(S) -> S] : Cardinality({f[i] : i \in 1..Cardinality(S)}) = Cardinality(S)}
Deliver == \E m \in net :
   \E r \in (IF m.k = "events" THEN UNION {AddAll(c, {<<held[m.t], <<>>>>}, l) : l \in Orders(m.ids)} ELSE {<<held[m.t], <<>>>>}) :
     /\ held' = [held EXCEPT ![m.t] = r[1]]
     /\ net' = (net \ {m}) \cup React(c, m.t, held[m.t], m, ToSet(r[2]), Nb(m.t))
     /\ quiet' = (quiet /\ m.k # "events") /\ UNCHANGED <<todo, round>>
Lose == LOSS /\ round = 0 /\ \E m \in net : net' = net \ {m} /\ UNCHANGED <<held, todo, round, quiet>>
Round == /\ net = {} /\ todo = {} /\ round < ROUNDS /\ round' = round + 1 /\ quiet' = TRUE
         /\ net' = UNION {{Mess(i, j, "reqIds", {}) : j \in Nb(i)} : i \in 1..N} /\ UNCHANGED <<held, todo>>
Next == Enter \/ Deliver \/ Lose \/ Round
Spec == Init /\ [][Next]_vars
Bounded == \A i \in 1..N : IsNewest(c, held[i], held[i])
Good == net = {} /\ round = ROUNDS => quiet /\ \A i \in 1..N : IsNewest(c, E, held[i])
=============================================================================
