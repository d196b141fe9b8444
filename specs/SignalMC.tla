------------------------------- MODULE SignalMC -----------------------------
(* Exhaustive: connections of honest nodes and of an attacker, who uses     *)
(* every signature ever made, for whatever it was made.                     *)
EXTENDS Signal, TLC
CONSTANTS N, C, TTL, EV
VARIABLES st, user, sigs, next, left, seen
vars == <<st, user, sigs, next, left, seen>>
\* user[c]: the node that really is at the other end, 0 the attacker; sigs: <<signer, challenge>>; seen: who got set-ups for whom
Init == st = Fresh /\ user = [c \in {} |-> 0] /\ sigs = {} /\ next = 1 /\ left = EV /\ seen = {}
Use == left > 0 /\ left' = left - 1
Open == /\ Use /\ next <= C /\ \E u \in 0..N :
          /\ user' = [c \in DOMAIN user \cup {next} |-> IF c = next THEN u ELSE user[c]]
          /\ st' = After(st, [op |-> "new", c |-> next], TTL) /\ next' = next + 1 /\ UNCHANGED <<sigs, seen>>
\* honest nodes sign the challenge of their connection only
Announce == /\ Use /\ \E c \in DOMAIN user : user[c] # 0 /\ sigs' = sigs \cup {<<user[c], c>>}
              /\ st' = After(st, [op |-> "ann", c |-> c, g |-> c, s |-> user[c], n |-> user[c], mal |-> 0], TTL) /\ UNCHANGED <<user, next, seen>>
Attack == /\ Use /\ \E c \in DOMAIN user, x \in sigs, n \in 1..N : user[c] = 0
             /\ st' = After(st, [op |-> "ann", c |-> c, g |-> x[2], s |-> x[1], n |-> n, mal |-> 0], TTL) /\ UNCHANGED <<user, sigs, next, seen>>
Setup == /\ Use /\ \E c \in DOMAIN user, i, j \in 1..N : i # j
             /\ st' = After(st, [op |-> "setup", c |-> c], TTL) /\ UNCHANGED <<user, sigs, next>>
             /\ seen' = IF Forward(st, c, i, j) = 0 THEN seen ELSE seen \cup {<<user[c], user[Forward(st, c, i, j)], i, j>>}
Bye == Use /\ \E c \in DOMAIN user : st' = After(st, [op |-> "bye", c |-> c], TTL) /\ UNCHANGED <<user, sigs, next, seen>>
Tick == Use /\ st' = After(st, [op |-> "tick"], TTL) /\ UNCHANGED <<user, sigs, next, seen>>
Next == Open \/ Announce \/ Attack \/ Setup \/ Bye \/ Tick
Spec == Init /\ [][Next]_vars
Authentic == \A j \in DOMAIN st.own : user[st.own[j]] = j
OneEach == \A i, j \in DOMAIN st.own : st.own[i] = st.own[j] => i = j
Alive == Bound(st) \subseteq DOMAIN st.silent /\ st.ch \cap Bound(st) = {} /\ \A x \in DOMAIN st.silent : st.silent[x] < TTL
RightPeers == \A x \in seen : {x[1], x[2]} = {x[3], x[4]}
=============================================================================
