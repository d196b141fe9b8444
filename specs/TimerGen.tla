------------------------------ MODULE TimerGen ------------------------------
EXTENDS Timer, Json, TLC
VARIABLES ops, hist, done, nt, ns
vars == <<ops, hist, done, nt, ns>>
R(S) == RandomElement(S)
Do(o) == hist' = Append(hist, o)
Ms == {1, 40, 333, 500, 999, 1000, 1001, 1700, 2000, 5300, 20000, 59000, 60000, 61000, 130000}
One == \E w \in {R(1..40)}, ms \in {R(Ms)}, t \in {R(1..3)}, s \in {R(1..9)}, kind \in {R(Kinds)} :
  IF nt = 0 \/ (w = 1 /\ nt < 3) THEN Do([op |-> "timer", kind |-> kind]) /\ nt' = nt + 1 /\ ns' = ns + 1
  ELSE IF w <= 9 /\ ns < 8 /\ t <= nt THEN Do([op |-> "sub", t |-> t, kind |-> kind]) /\ ns' = ns + 1 /\ UNCHANGED nt
  ELSE IF w = 10 /\ t <= nt /\ Len(hist) > 6 THEN Do([op |-> "forget", t |-> t]) /\ UNCHANGED <<nt, ns>>
  ELSE IF w <= 12 /\ s <= ns THEN Do([op |-> "leave", s |-> s]) /\ UNCHANGED <<nt, ns>>
  ELSE IF w <= 16 THEN Do([op |-> "interval", new |-> R({0, 0, 1}), off |-> R({-60000, -1500, -2, -1, 0, 0, 250, 1000, 7600}), dur |-> R({250, 1000, 1000, 3000, 61000})]) /\ UNCHANGED <<nt, ns>>
  ELSE IF w = 17 THEN Do([op |-> "many", n |-> 2000]) /\ UNCHANGED <<nt, ns>>
  ELSE IF w <= 20 THEN Do([op |-> "wait", new |-> R(0..1), ms |-> R({0, ms})]) /\ UNCHANGED <<nt, ns>>
  \* the machine stands still, with the clock on the wall going on
  ELSE IF w = 40 /\ R(1..8) = 1 THEN Do([op |-> "freeze", ms |-> 2100]) /\ UNCHANGED <<nt, ns>>
  ELSE Do([op |-> IF w <= 30 THEN "pass" ELSE "stall", ms |-> ms]) /\ UNCHANGED <<nt, ns>>
Init == ops \in {8, 16, 30} /\ hist = <<>> /\ done = FALSE /\ nt = 0 /\ ns = 0
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, hist, nt, ns>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
