----------------------------- MODULE WsServerGen ----------------------------
EXTENDS WsServer, Json, TLC
VARIABLES ops, C, nx, st, clog, hist, done
vars == <<ops, C, nx, st, clog, hist, done>>
R(S) == RandomElement(S)
Do(o) == hist' = Append(hist, o)
Max == 9
LiveOne == IF Live(C) = {} THEN 0 ELSE R(Live(C))
\* mostly a live client, sometimes an ended one or one which never was
Target == IF Live(C) # {} /\ R(1..10) <= 6 THEN R(Live(C)) ELSE R(0..Max)
Keep == UNCHANGED <<C, nx, st, clog>>
Connect == /\ Do([op |-> IF R(1..4) = 1 THEN "bad" ELSE "connect", i |-> nx + 1, r |-> R(1..5)]) /\ nx' = nx + 1
           /\ C' = IF hist'[Len(hist')].op = "connect" /\ ~st THEN Open(C, nx + 1, nx + 1) ELSE C
           /\ UNCHANGED <<st, clog>>
One == \E w \in {R(1..40)}, l \in {LiveOne}, g \in {Target} :
  IF (w <= 12 /\ nx < Max) \/ (nx < 2) THEN Connect
  ELSE IF w <= 18 THEN (IF l = 0 THEN Do([op |-> "send", i |-> g, n |-> 1, r |-> R(1..4)]) ELSE Do([op |-> "text", i |-> l, n |-> R({1, 1, 3, 20}), r |-> R(1..4)])) /\ Keep
  ELSE IF w = 19 /\ l # 0 THEN Do([op |-> "noise", i |-> l]) /\ Keep
  ELSE IF w <= 28 THEN Do([op |-> "send", i |-> g, n |-> R({1, 1, 3, 20}), r |-> R(1..4)]) /\ Keep
  ELSE IF w <= 33 THEN Do([op |-> "close", i |-> g]) /\ C' = (IF g \in Live(C) THEN End(C, g) ELSE C) /\ UNCHANGED <<nx, st, clog>>
  ELSE IF w <= 37 THEN (IF l = 0 THEN Do([op |-> "close", i |-> g]) /\ UNCHANGED C ELSE Do([op |-> IF R(1..2) = 1 THEN "leave" ELSE "drop", i |-> l]) /\ C' = End(C, l)) /\ UNCHANGED <<nx, st, clog>>
  ELSE IF w = 38 /\ l # 0 /\ Len(clog) = 0 /\ R(1..3) = 1 THEN Do([op |-> "clog", i |-> l]) /\ clog' = Append(clog, l) /\ UNCHANGED <<C, nx, st>>
  ELSE IF w = 39 /\ R(1..4) = 1 /\ ~st THEN Do([op |-> "stop"]) /\ st' = TRUE /\ C' = [j \in DOMAIN C |-> IF C[j].st = "live" THEN [C[j] EXCEPT !.st = "ended"] ELSE C[j]] /\ UNCHANGED <<nx, clog>>
  ELSE Do([op |-> "send", i |-> g, n |-> 1, r |-> 1]) /\ Keep
Init == ops \in {10, 20, 40} /\ C = [i \in 1..Max |-> NoConn] /\ nx = 0 /\ st = FALSE /\ clog = <<>> /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, C, nx, st, clog, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
