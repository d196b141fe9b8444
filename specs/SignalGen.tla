------------------------------ MODULE SignalGen -----------------------------
EXTENDS Signal, Json, IOUtils, TLC
VARIABLES sh, st, next, user, hist, done
vars == <<sh, st, next, user, hist, done>>
R(S) == RandomElement(S)
Shapes == [n : 2..4, ttl : {1, 2, 3, 5}, max : {0, 0, 1, 2, 10}, ops : {20, 40, 80}]
Prefer(S, T, p) == IF S # {} /\ R(1..10) <= p THEN R(S) ELSE R(T)
Do(o) == st' = After(st, o, sh.ttl) /\ hist' = Append(hist, o) /\ UNCHANGED <<sh, done>>
Keep == UNCHANGED <<next, user>>
All == 1..(next - 1)
Live == DOMAIN st.silent
New == /\ next <= 12 /\ next' = next + 1 /\ \E u \in {R(1..sh.n)} : user' = Append(user, u)
       /\ Do([op |-> "new", c |-> next])
Some == \E w \in {R(1..30)} : \E c \in {Prefer(Live, All, 9)}, i \in {R(1..sh.n)}, j \in {R(0..sh.n)}, m \in {R(1..4)} :
  \/ w \in 1..8 /\ \E x \in {Prefer(st.ch, All, 9)} : Do([op |-> "ann", c |-> x, g |-> x, s |-> user[x], n |-> user[x], mal |-> 0])
  \* signature for another connection, by another key, for another info, or broken
  \/ w = 9 /\ \E x \in {Prefer(st.ch, All, 9)}, g \in {R(0..(next - 1))} : Do([op |-> "ann", c |-> x, g |-> g, s |-> user[x], n |-> user[x], mal |-> 0])
  \/ w = 10 /\ \E x \in {Prefer(st.ch, All, 9)}, s \in {R(1..sh.n)} : Do([op |-> "ann", c |-> x, g |-> x, s |-> s, n |-> user[x], mal |-> 0])
  \/ w = 11 /\ \E x \in {Prefer(st.ch, All, 9)} : Do([op |-> "ann", c |-> x, g |-> x, s |-> user[x], n |-> i, mal |-> 0])
  \/ w = 12 /\ \E x \in {Prefer(st.ch, All, 9)} : Do([op |-> "ann", c |-> x, g |-> x, s |-> user[x], n |-> user[x], mal |-> m])
  \/ w \in 13..16 /\ Do([op |-> "list", c |-> c])
  \/ w \in 17..20 /\ \E x \in {Prefer(Bound(st), All, 8)} : \E a \in {IF NodeOf(st, x) # 0 THEN NodeOf(st, x) ELSE i} : \E b \in {Prefer(DOMAIN st.own \ {a}, (0..sh.n) \ {a}, 7)} :
        Do(IF m <= 2 THEN [op |-> "setup", c |-> x, i |-> a, j |-> b, r |-> m] ELSE [op |-> "setup", c |-> x, i |-> b, j |-> a, r |-> m])
  \/ w \in 21..22 /\ i # j /\ Do([op |-> "setup", c |-> c, i |-> i, j |-> j, r |-> m])
  \/ w \in 23..24 /\ Do([op |-> "bye", c |-> c])
  \/ w = 25 /\ Do([op |-> "stats", c |-> c])
  \/ w = 26 /\ Do([op |-> "junk", c |-> c, r |-> m])
  \/ w \in 27..30 /\ Do([op |-> "tick"])
Init == sh \in Shapes /\ st = Fresh /\ next = 1 /\ user = <<>> /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < sh.ops /\ (IF next = 1 \/ (next <= 12 /\ R(1..8) = 1) THEN New ELSE Some /\ Keep)
\* guards of the random choice may fail: an extra tick keeps the behaviour going
Pad == Len(hist) < sh.ops /\ next > 1 /\ R(1..3) = 1 /\ Do([op |-> "list", c |-> R(All)]) /\ Keep
Finish == Len(hist) = sh.ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([shape |-> sh, ops |-> hist])) /\ UNCHANGED <<sh, st, next, user, hist>>
Next == Step \/ Pad \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
