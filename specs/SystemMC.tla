------------------------------ MODULE SystemMC ------------------------------
(* Nodes exchanging what they have over single connections, in any order:   *)
(* what a node misses comes from any neighbour, at any time, and may be     *)
(* lost any number of times. Calm is what is left when nothing changes.     *)
EXTENDS System
CONSTANTS N, M, F, Without, Faults
VARIABLES y, n, bad
vars == <<y, n, bad>>
w == Without
Nodes == 1..N
Init == y = Fresh(N) /\ n = 0 /\ bad = 0
Do == n < M /\ n' = n + 1 /\ bad' = bad /\
  \/ \E i \in Nodes \ y.up : y' = Start(w, y, i)
  \/ \E i \in y.up, j \in y.up : i < j /\ ~Linked(y.net, i, j) /\ y' = [y EXCEPT !.net = @ \cup {<<i, j>>}]
  \/ \E i \in y.up : y' = Say(w, y, i, n)
  \/ \E i \in y.up, f \in F : y' = Store(w, y, i, f, IF f \in Roots THEN 0 ELSE n)
Fault == bad < Faults /\ bad' = bad + 1 /\ n' = n /\
  \/ \E i \in y.up : y' = Stop(y, i)
  \/ \E p \in y.net : y' = Cut(y, p[1], p[2])
\* node j hears one thing from node i
HearChat(i, j) == Gossips(w, i) /\ Gossips(w, j) /\ \E m \in y.ch[i] \ y.ch[j] : y' = [y EXCEPT !.ch[j] = @ \cup {m}]
HearInfo(i, j) == Gossips(w, i) /\ Gossips(w, j) /\ \E m \in y.inf[i] \ y.inf[j] : y' = [y EXCEPT !.inf[j] = @ \cup {m}]
HearFlo(i, j) == Stores(w, i) /\ Stores(w, j) /\ \E f \in Flos : y.fl[i][f] > y.fl[j][f] /\ y' = [y EXCEPT !.fl[j] = Put(@, f, y.fl[i][f])] /\ y' # y
Hear == UNCHANGED <<n, bad>> /\ \E i, j \in y.up : Linked(y.net, i, j) /\ (HearChat(i, j) \/ HearInfo(i, j) \/ HearFlo(i, j))
Next == Do \/ Fault \/ Hear
Spec == Init /\ [][Next]_vars /\ WF_vars(Hear)
\* nothing is invented, nothing gets lost where it is, versions never go back
Real == \A i \in Nodes : y.ch[i] \subseteq 0..(n - 1) /\ y.inf[i] \subseteq Nodes /\ \A f \in Flos : y.fl[i][f] < n
NeverLess == [][\A i \in Nodes : y.ch[i] \subseteq y'.ch[i] /\ y.inf[i] \subseteq y'.inf[i] /\ AtLeast(y'.fl[i], y.fl[i])]_vars
WithRealm == \A i \in Nodes, f \in Flos : y.fl[i][f] >= 0 => y.fl[i][RootOf(f)] >= 0
\* where nobody can hear anything new, everybody has what Calm says, and Calm is not more than that
Quiet == ~ENABLED Hear => Calm(w, y) = y
CalmIsQuiet == Calm(w, Calm(w, y)) = Calm(w, y)
\* what is exchanged leads towards the same Calm
SameCalm == [][(n' = n /\ bad' = bad) => Calm(w, y') = Calm(w, y)]_vars
Settles == <>[](Calm(w, y) = y)
W0 == [i \in 1..N |-> {}]
W1 == [i \in 1..N |-> IF i = 2 THEN {"gossip"} ELSE IF i = 3 THEN {"storage"} ELSE {}]
=============================================================================
