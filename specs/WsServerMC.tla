----------------------------- MODULE WsServerMC -----------------------------
(* The server's table as it is implemented: handshakes in their own tasks,  *)
(* entries by number, an entry removed by the task of its connection or by  *)
(* the server's user, whoever is first; reports in a queue.                 *)
EXTENDS WsServer
CONSTANTS N, TX
VARIABLES next, hs, table, task, rep, sent, got, stopped
vars == <<next, hs, table, task, rep, sent, got, stopped>>
\* task[n]: "run" (reads and writes), "close" (told to end), "over"
Accept == ~stopped /\ next <= N /\ hs' = hs \cup {next} /\ next' = next + 1 /\ UNCHANGED <<table, task, rep, sent, got, stopped>>
Shake == \E n \in hs : hs' = hs \ {n} /\ UNCHANGED <<next, sent, got, stopped>> /\
   \/ /\ ~stopped /\ rep' = Append(rep, <<"new", n>>) /\ table' = table \cup {n} /\ task' = [task EXCEPT ![n] = "run"]
   \/ UNCHANGED <<rep, table, task>>
Text == \E n \in 1..N : task[n] = "run" /\ Len(rep) < TX /\ rep' = Append(rep, <<"text", n>>) /\ UNCHANGED <<next, hs, table, task, sent, got, stopped>>
Leave == \E n \in 1..N : task[n] \in {"run", "close"} /\ task' = [task EXCEPT ![n] = "over"] /\ table' = table \ {n} /\ rep' = Append(rep, <<"end", n>>)
   /\ UNCHANGED <<next, hs, sent, got, stopped>>
Close == \E n \in table : table' = table \ {n} /\ task' = [task EXCEPT ![n] = IF @ = "run" THEN "close" ELSE @] /\ UNCHANGED <<next, hs, rep, sent, got, stopped>>
Send == \E n \in 1..N : Cardinality(sent) < 2 /\ sent' = sent \cup {<<Cardinality(sent), n>>} /\ got' = (IF n \in table THEN got \cup {<<Cardinality(sent), n>>} ELSE got)
   /\ UNCHANGED <<next, hs, table, task, rep, stopped>>
Stop == ~stopped /\ stopped' = TRUE /\ table' = {} /\ task' = [n \in 1..N |-> IF task[n] = "run" THEN "close" ELSE task[n]] /\ UNCHANGED <<next, hs, rep, sent, got>>
Init == next = 1 /\ hs = {} /\ table = {} /\ task = [n \in 1..N |-> "none"] /\ rep = <<>> /\ sent = {} /\ got = {} /\ stopped = FALSE
Next == Accept \/ Shake \/ Text \/ Leave \/ Close \/ Send \/ Stop
Spec == Init /\ [][Next]_vars
At(k, n) == {i \in DOMAIN rep : rep[i] = <<k, n>>}
Once == \A n \in 1..N : Cardinality(At("new", n)) <= 1 /\ Cardinality(At("end", n)) <= 1
Order == \A n \in 1..N : \A i \in At("text", n) \cup At("end", n) : \E j \in At("new", n) : j < i
NothingAfter == \A n \in 1..N : \A i \in At("end", n) : \A j \in At("text", n) : j < i
TableRuns == \A n \in table : task[n] = "run" /\ At("new", n) # {} /\ At("end", n) = {}
Own == got \subseteq sent
Ends == \A n \in 1..N : At("new", n) # {} /\ task[n] = "over" => At("end", n) # {}
=============================================================================
