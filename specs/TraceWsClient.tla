---------------------------- MODULE TraceWsClient ---------------------------
(* Recorded histories of a real websocket client and a server. (C27)        *)
(*  srv: what the server notices [c, k, m], cl: what the client reports.    *)
EXTENDS WsClient, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, s, mode, greet
vars == <<t, k, s, mode, greet>>
T == Traces[t].steps
o == T[k+1]
Of(q, c) == SelectSeq(q, LAMBDA e : e.c = c)
\* connections are independent of each other: the order counts for each of them
Same(q, r) == Len(q) = Len(r) /\ \A c \in {q[i].c : i \in DOMAIN q} \cup {r[i].c : i \in DOMAIN r} : Of(q, c) = Of(r, c)
Agree(s2) == s' = s2 /\ Same(o.srv, s2.srv) /\ o.cl = s2.cl
Ms(v, n) == [j \in 1..n |-> v * 100 + j]
F == Fresh(s)
Judge == CASE o.op = "mode" -> Agree(F) /\ mode' = o.mode /\ greet' = o.greet
           [] o.op = "start" -> Agree(On(F, mode, greet)) /\ UNCHANGED <<mode, greet>>
           [] o.op = "in" -> Agree(Ins(F, o.xs, 1, o.v, mode, greet)) /\ UNCHANGED <<mode, greet>>
           [] o.op = "srv" -> LET s1 == SrvSay(F, Ms(o.v, o.n)) IN
                /\ Agree(IF o.how \in {"stay", "noise"} THEN s1 ELSE SrvEnd(s1, mode, greet)) /\ UNCHANGED <<mode, greet>>
Init == t \in 1..Len(Traces) /\ k = 0 /\ s = S0 /\ mode = "refuse" /\ greet = 0
Next == \/ /\ k < Len(T) /\ o.op \in {"mode", "start", "in", "srv"} /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
