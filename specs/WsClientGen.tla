----------------------------- MODULE WsClientGen ----------------------------
EXTENDS WsClient, Json, TLC
VARIABLES ops, s, mode, greet, hist, done
vars == <<ops, s, mode, greet, hist, done>>
R(X) == RandomElement(X)
Xs(n) == IF n = 1 THEN <<R({"msg", "msg", "on", "off"})>>
         ELSE IF n = 20 THEN [i \in 1..20 |-> "msg"]
         ELSE [i \in 1..n |-> R({"msg", "msg", "msg", "on", "off"})]
Ms(v, n) == [j \in 1..n |-> v * 100 + j]
\* ws, wc: how much the server and the client have to notice (so the driver knows how long to wait)
Do(o, s2) == /\ s' = s2 /\ hist' = Append(hist, [v |-> Len(hist) + 1, ws |-> Len(s2.srv), wc |-> Len(s2.cl)] @@ o)
In(xs, r) == Do([op |-> "in", xs |-> xs, r |-> r], Ins(Fresh(s), xs, 1, Len(hist) + 1, mode, greet)) /\ UNCHANGED <<mode, greet>>
Srv(n, how, r) == LET s1 == SrvSay(Fresh(s), Ms(Len(hist) + 1, n)) IN
   Do([op |-> "srv", n |-> n, how |-> how, r |-> r], IF how \in {"stay", "noise"} THEN s1 ELSE SrvEnd(s1, mode, greet)) /\ UNCHANGED <<mode, greet>>
Mode(m, g) == Do([op |-> "mode", mode |-> m, greet |-> g], Fresh(s)) /\ mode' = m /\ greet' = g
Step1 == \E w \in {R(1..20)}, n \in {R({0, 1, 1, 2, 5, 20})}, r \in {R(1..4)} :
  IF hist = <<>> THEN Mode(R({"serve", "serve", "refuse", "junk"}), R({0, 0, 1, 3}))
  ELSE IF Len(hist) = 1 THEN Do([op |-> "start"], On(Fresh(s), mode, greet)) /\ UNCHANGED <<mode, greet>>
  ELSE IF w <= 8 THEN \E l \in {IF greet > 0 THEN 1 ELSE IF mode # "serve" THEN R({1, 1, 2, 3}) ELSE R({1, 1, 1, 2, 3, 5, 20})} : \E xs \in {Xs(l)} : In(xs, r)
  ELSE IF w <= 12 THEN Srv(n, IF R(1..4) = 1 THEN "noise" ELSE "stay", r)
  ELSE IF w <= 16 THEN \E h \in {R({"close", "drop", "fin", "bad"})} : Srv(IF h = "drop" \/ R(1..2) = 1 THEN 0 ELSE n, h, r)
  ELSE IF w <= 18 \/ mode = "serve" THEN Mode(R({"serve", "serve", "refuse", "junk"}), R({0, 0, 1, 3}))
  ELSE Mode("serve", 0)
Init == ops \in {8, 15, 25} /\ s = S0 /\ mode = "refuse" /\ greet = 0 /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ Step1 /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, s, mode, greet, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
