----------------------------- MODULE NodeConfig -----------------------------
(* What a node keeps over restarts. A configuration is                      *)
(* [key, name, client, mods]; the file is [st, c] with st "none", "bad" or  *)
(* "good". Modules are numbers of bits.                                     *)
EXTENDS Naturals, FiniteSets
NoConf == [key |-> 0, name |-> 0, client |-> 0, mods |-> {}]
None == [st |-> "none", c |-> NoConf]
Bad == [st |-> "bad", c |-> NoConf]
Good(c) == [st |-> "good", c |-> c]
STAT == 0
RAND == 1
GOSSIP == 2
WEBPROXY == 4
REQUESTS == 5
ROUTER == 6
STORAGE == 7
Stable == (0..7) \ {3}
\* version 1 knew less
V1Mods == 0..5
\* what is read when a node starts on this file: c, with a new key only if there is nothing to be read
Reads(f, used, c) == /\ REQUESTS \in c.mods
                     /\ IF f.st = "good" THEN c = [f.c EXCEPT !.mods = @ \cup {REQUESTS}]
                        ELSE c.key \notin used /\ c.mods = Stable /\ c.client = 1
\* the parts which run
Parts(m) == (IF RAND \in m THEN {"random"} ELSE {}) \cup (IF {RAND, GOSSIP} \subseteq m THEN {"gossip"} ELSE {})
            \cup (IF {RAND, WEBPROXY} \subseteq m THEN {"webproxy"} ELSE {}) \cup (IF STAT \in m THEN {"stat"} ELSE {})
            \cup (IF ROUTER \in m THEN {"router"} ELSE {}) \cup (IF {ROUTER, STORAGE} \subseteq m THEN {"storage"} ELSE {})
\* what is known of the nodes: a set of [key, name, at]; only the newest of each counts
Learn(K, e) == IF \E x \in K : x.key = e.key /\ x.at >= e.at THEN K ELSE {x \in K : x.key # e.key} \cup {e}
Newest(K) == 1 + (IF K = {} THEN 0 ELSE CHOOSE n \in {x.at : x \in K} : \A x \in K : x.at <= n)
Shown(K) == {[key |-> x.key, name |-> x.name] : x \in K}
Verifies(a, b, tamper) == a = b /\ tamper = 0
=============================================================================
