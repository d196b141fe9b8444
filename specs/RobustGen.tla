------------------------------ MODULE RobustGen -----------------------------
EXTENDS Robust, Sequences, Integers, Json, TLC
VARIABLES ops, hist, done
vars == <<ops, hist, done>>
R(S) == RandomElement(S)
Do(o) == hist' = Append(hist, o)
Send(l, k) == Do([op |-> "send", from |-> R(1..3), t |-> R(Templates), n |-> R(Flos), lvl |-> l, kind |-> k, pos |-> IF R(1..3) = 1 THEN 0 ELSE R(1..80)])
One == \E w \in {R(1..40)} :
  IF w <= 8 THEN Send(0, 0)
  ELSE IF w <= 17 THEN \E k \in {R(Kinds)} : Send(1, k)
  ELSE IF w <= 28 THEN \E k \in {R(Kinds)} : Send(2, k)
  ELSE IF w <= 30 THEN \E l \in {R({3, 4})}, k \in {R(1..5)} : Send(l, k)
  ELSE IF w <= 32 THEN Do([op |-> "put", n |-> R(Flos)])
  ELSE IF w <= 34 THEN Do([op |-> "say", n |-> R(Chats)])
  ELSE IF w <= 36 THEN Do([op |-> "tick", n |-> R({1, 2, 10, 61})])
  ELSE IF w <= 38 THEN Do([op |-> "leave", from |-> R(1..3)])
  ELSE Do([op |-> "restart"])
Init == ops \in {8, 16, 30} /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
