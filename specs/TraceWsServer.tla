---------------------------- MODULE TraceWsServer ---------------------------
(* Recorded histories of a real server and its clients. (C24)               *)
(*  rep: what the server reports [k, n, m], got: what the clients notice    *)
(*  [i, k, m]; num: the number used by "send" and "close".                  *)
EXTENDS WsServer, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, C, used, stopped, clog
vars == <<t, k, C, used, stopped, clog>>
S == Traces[t].steps
o == S[k+1]
Rep(kind, n, m) == [k |-> kind, n |-> n, m |-> m]
Got(i, kind, m) == [i |-> i, k |-> kind, m |-> m]
Ms == [j \in 1..o.n |-> o.v * 100 + j]
Quiet == o.rep = <<>> /\ o.got = <<>>
Elems(q) == {q[i] : i \in DOMAIN q}
Same == UNCHANGED <<C, used, stopped, clog>>
IsLive(i) == i \in Live(C)
ConnectOk == IF stopped THEN Quiet /\ Same
  ELSE /\ o.got = <<>> /\ Len(o.rep) = 1 /\ o.rep[1].k = "new" /\ Fresh(used, o.rep[1].n)
       /\ C' = Open(C, o.i, o.rep[1].n) /\ used' = used \cup {o.rep[1].n} /\ UNCHANGED <<stopped, clog>>
Ended(i) == Rep("end", C[i].num, 0)
StopOk == LET L == Live(C) IN
  /\ Elems(o.rep) = {Rep("stopped", 0, 0)} \cup {Ended(i) : i \in L} /\ Len(o.rep) = Cardinality(L) + 1
  /\ Elems(o.got) = {Got(i, "end", 0) : i \in L \ clog} /\ Len(o.got) = Cardinality(L \ clog)
  /\ C' = [i \in DOMAIN C |-> IF i \in L THEN [C[i] EXCEPT !.st = "ended"] ELSE C[i]] /\ stopped' = TRUE /\ UNCHANGED <<used, clog>>
Judge == CASE o.op = "connect" -> ConnectOk
           [] o.op \in {"bad", "noise", "clog"} -> Quiet /\ UNCHANGED <<C, used, stopped>> /\ clog' = IF o.op = "clog" THEN clog \cup {o.i} ELSE clog
           [] o.op = "text" -> /\ o.got = <<>> /\ Same
                               /\ o.rep = IF IsLive(o.i) THEN [j \in DOMAIN Ms |-> Rep("text", C[o.i].num, Ms[j])] ELSE <<>>
           [] o.op = "send" -> LET w == With(C, o.num) \ clog IN
                               /\ o.rep = <<>> /\ Same
                               /\ o.got = IF w = {} THEN <<>> ELSE LET i == CHOOSE x \in w : TRUE IN [j \in DOMAIN Ms |-> Got(i, "text", Ms[j])]
           [] o.op = "close" -> LET w == With(C, o.num) IN
                                IF w = {} THEN Quiet /\ Same
                                ELSE LET i == CHOOSE x \in w : TRUE IN
                                     /\ o.rep = <<Ended(i)>> /\ o.got = (IF i \in clog THEN <<>> ELSE <<Got(i, "end", 0)>>)
                                     /\ C' = End(C, i) /\ UNCHANGED <<used, stopped, clog>>
           [] o.op \in {"leave", "drop"} -> IF IsLive(o.i) THEN o.rep = <<Ended(o.i)>> /\ o.got = <<>> /\ C' = End(C, o.i) /\ UNCHANGED <<used, stopped, clog>>
                                            ELSE Quiet /\ Same
           [] o.op = "stop" -> StopOk
Ops == {"connect", "bad", "noise", "clog", "text", "send", "close", "leave", "drop", "stop"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ C = [i \in 1..9 |-> NoConn] /\ used = {} /\ stopped = FALSE /\ clog = {}
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
