----------------------------- MODULE DhtSyncMC ------------------------------
(* Exhaustive: all initial holdings of N nodes in a line, all orders of     *)
(* delivery, losses in a first phase, then ROUNDS rounds without losses.    *)
EXTENDS DhtSync
CONSTANTS N, ROUNDS, BIG, LOSS
c == [accept |-> <<>>, realms |-> <<[max |-> 10000, root |-> 1]>>,
      flos |-> <<[realm |-> 1, depth |-> 0, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<1,1,1,1>>]>>],
                 [realm |-> 1, depth |-> 1, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<1,1,1,1>>], [ver |-> 1, third |-> FALSE, sz |-> <<1,1,1,1>>]>>],
                 [realm |-> 1, depth |-> 1, parent |-> 2, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<1,1,1,1>>]>>]>>]
VARIABLES ns, net, round, quiet, g, order
vars == <<ns, net, round, quiet, g, order>>
Nb(i) == {j \in 1..N : j = i-1 \/ j = i+1}
Ent == {[x \in {1} \cup (IF e2 = 0 THEN {} ELSE {2}) \cup (IF e3 THEN {3} ELSE {}) |->
           IF x = 2 THEN [v |-> e2 - 1, c |-> cc] ELSE [v |-> 0, c |-> {}]] : e2 \in 0..2, e3 \in BOOLEAN, cc \in (IF BIG THEN SUBSET {1, 3} ELSE {{}, {3}})}
States == {InitNode} \cup {[InitNode EXCEPT !.held = [x \in {1} |-> e]] : e \in Ent}
Syncs == UNION {{[f |-> i, t |-> j, k |-> "reqRealms"] : j \in Nb(i)} : i \in 1..N}
Init == /\ ns \in [1..N -> States] /\ g = ns /\ net = {} /\ round = 0 /\ quiet = FALSE /\ order = 0
Deliver == \E m \in net : \E s \in After(c, ns[m.t], m) :
   /\ ns' = [ns EXCEPT ![m.t] = s]
   /\ net' = (net \ {m}) \cup Replies(c, ns[m.t], m)
   /\ quiet' = (quiet /\ (m.k # "flos" \/ m.l = {}))
   /\ UNCHANGED <<round, g, order>>
Lose == LOSS /\ round = 1 /\ \E m \in net : net' = net \ {m} /\ UNCHANGED <<ns, round, quiet, g, order>>
Round == /\ net = {} /\ round < ROUNDS /\ round' = round + 1 /\ net' = Syncs /\ quiet' = TRUE /\ UNCHANGED <<ns, g, order>>
Next == Deliver \/ Lose \/ Round
Spec == Init /\ [][Next]_vars
Done == net = {} /\ round = ROUNDS
Good == Done => Converged(c, g, ns) /\ quiet
Contents == UNION {{<<id, g[i].held[1][id].v>> : id \in DOMAIN g[i].held[1]} : i \in {j \in 1..N : 1 \in DOMAIN g[j].held}}
Atts == UNION {UNION {{<<id, x>> : x \in g[i].held[1][id].c} : id \in DOMAIN g[i].held[1]} : i \in {j \in 1..N : 1 \in DOMAIN g[j].held}}
NotInvented == ~Invented(c, ns, Contents, Atts)
=============================================================================
