------------------------------- MODULE System -------------------------------
(* Several whole nodes which can be stopped and started, connections which  *)
(* can be cut, messages which can be lost. Chats and infos spread over the  *)
(* nodes with gossip, Flos over those which store.                          *)
(*  A system y = [up: nodes running, net: connected pairs <<i, j>>, i < j,  *)
(*    ch: node -> chats, inf: node -> infos, fl: node -> [Flos -> version]] *)
(*  w[i]: the parts node i runs without                                     *)
EXTENDS Integers, FiniteSets
Roots == {1, 4}
Flos == 1..6
RootOf(f) == IF f <= 3 THEN 1 ELSE 4
NoFlos == [f \in Flos |-> -1]
Max2(a, b) == IF a > b THEN a ELSE b
Newest(S) == [f \in Flos |-> LET V == {x[f] : x \in S} IN IF V = {} THEN -1 ELSE CHOOSE v \in V : \A u \in V : u <= v]
\* a Flo is only stored together with the Flo of its realm, and never replaced by an older one
Put(h, f, v) == IF f \in Roots \/ h[RootOf(f)] >= 0 THEN [h EXCEPT ![f] = Max2(@, v)] ELSE h
AtLeast(g, h) == \A f \in Flos : g[f] >= h[f]
Has(w, i, p) == p \notin w[i]
Gossips(w, i) == Has(w, i, "rand") /\ Has(w, i, "gossip")
Stores(w, i) == Has(w, i, "router") /\ Has(w, i, "storage")
Linked(net, i, j) == <<i, j>> \in net \/ <<j, i>> \in net
RECURSIVE Reach(_, _, _)
\* the nodes of G reached from those in S
Reach(net, G, S) == LET T == S \cup {j \in G : \E i \in S : Linked(net, i, j)} IN IF T = S THEN S ELSE Reach(net, G, T)
Talkers(w, y) == {i \in y.up : Gossips(w, i)}
Keepers(w, y) == {i \in y.up : Stores(w, i)}
\* what everybody has once all that has been lost is made up for
Chats(w, y, i) == IF i \in Talkers(w, y) THEN UNION {y.ch[j] : j \in Reach(y.net, Talkers(w, y), {i})} ELSE y.ch[i]
Infos(w, y, i) == IF i \in Talkers(w, y) THEN UNION {y.inf[j] : j \in Reach(y.net, Talkers(w, y), {i})} ELSE y.inf[i]
Stored(w, y, i) == IF i \in Keepers(w, y) THEN Newest({y.fl[j] : j \in Reach(y.net, Keepers(w, y), {i})}) ELSE y.fl[i]
Calm(w, y) == [y EXCEPT !.ch = [i \in DOMAIN @ |-> Chats(w, y, i)], !.inf = [i \in DOMAIN @ |-> Infos(w, y, i)],
                        !.fl = [i \in DOMAIN @ |-> Stored(w, y, i)]]
\* ---- single steps, all of them by one node
Start(w, y, i) == [y EXCEPT !.up = @ \cup {i}, !.inf[i] = IF Gossips(w, i) THEN @ \cup {i} ELSE @]
Stop(y, i) == [y EXCEPT !.up = @ \ {i}, !.net = {p \in @ : i \notin {p[1], p[2]}}]
Cut(y, i, j) == [y EXCEPT !.net = @ \ {<<i, j>>, <<j, i>>}]
Say(w, y, i, m) == IF Gossips(w, i) THEN [y EXCEPT !.ch[i] = @ \cup {m}] ELSE y
Store(w, y, i, f, v) == IF Stores(w, i) THEN [y EXCEPT !.fl[i] = Put(@, f, v)] ELSE y
Fresh(n) == [up |-> {}, net |-> {}, ch |-> [i \in 1..n |-> {}], inf |-> [i \in 1..n |-> {}], fl |-> [i \in 1..n |-> NoFlos]]
=============================================================================
