-------------------------------- MODULE Signal ------------------------------
(* The signalling server. Connections are numbered and never reused.        *)
(*  st = [ch: connections with an unanswered challenge,                     *)
(*        own: announced node -> its connection,                            *)
(*        silent: live connection -> minutes without a message]             *)
(*  announcements carry g: on which connection's challenge the signature    *)
(*  was made (0: none), s: whose key signed, n: whose info, mal: malformed  *)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [ch |-> {}, own |-> [i \in {} |-> 0], silent |-> [i \in {} |-> 0]]
Bound(st) == {st.own[j] : j \in DOMAIN st.own}
NodeOf(st, x) == IF x \in Bound(st) THEN CHOOSE j \in DOMAIN st.own : st.own[j] = x ELSE 0
Valid(st, o) == o.c \in st.ch /\ o.g = o.c /\ o.s = o.n /\ o.mal = 0
Restrict(f, D) == [x \in D |-> f[x]]
Drop(st, X) == [ch |-> st.ch \ X, own |-> Restrict(st.own, {j \in DOMAIN st.own : st.own[j] \notin X}),
                silent |-> Restrict(st.silent, DOMAIN st.silent \ X)]
Heard(st, x) == IF x \in DOMAIN st.silent THEN [st EXCEPT !.silent[x] = 0] ELSE st
Expired(st, ttl) == {x \in DOMAIN st.silent : st.silent[x] + 1 >= ttl}
After(st, o, ttl) ==
  CASE o.op = "new" -> [st EXCEPT !.ch = @ \cup {o.c}, !.silent = [x \in DOMAIN @ \cup {o.c} |-> IF x = o.c THEN 0 ELSE @[x]]]
    [] o.op = "bye" -> Drop(st, {o.c})
    [] o.op = "tick" -> Drop([st EXCEPT !.silent = [x \in DOMAIN @ |-> @[x] + 1]], Expired(st, ttl))
    [] o.op = "ann" -> IF Valid(st, o)
         THEN Heard([st EXCEPT !.ch = @ \ {o.c}, !.own = [j \in DOMAIN @ \cup {o.n} |-> IF j = o.n THEN o.c ELSE @[j]]], o.c)
         ELSE Heard(st, o.c)
    [] OTHER -> Heard(st, o.c)
\* to which connection a set-up message between nodes i and j goes (0: nowhere)
Forward(st, x, i, j) == LET a == NodeOf(st, x) IN
  IF a = 0 \/ a \notin {i, j} THEN 0 ELSE
  LET b == IF a = i THEN j ELSE i IN IF b \in DOMAIN st.own THEN st.own[b] ELSE 0
=============================================================================
