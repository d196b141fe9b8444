------------------------------- MODULE WsServer ----------------------------
(* The connections of a websocket server: c[i] of client i is               *)
(* [num, st] with st "none", "live", "ended"; used: all numbers ever given. *)
EXTENDS Naturals, Sequences, FiniteSets
NoConn == [num |-> 0, st |-> "none"]
Fresh(used, n) == n \notin used
Open(C, i, n) == [C EXCEPT ![i] = [num |-> n, st |-> "live"]]
End(C, i) == [C EXCEPT ![i].st = "ended"]
Live(C) == {i \in DOMAIN C : C[i].st = "live"}
\* the client which has this number, if it is still connected
With(C, n) == {i \in Live(C) : C[i].num = n}
=============================================================================
