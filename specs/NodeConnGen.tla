----------------------------- MODULE NodeConnGen ----------------------------
EXTENDS NodeConn, Json, TLC
VARIABLES ops, C, hist, done
vars == <<ops, C, hist, done>>
R(S) == RandomElement(S)
Nodes == {1, 2}
Lens == {0, 1, 2, 50, 8191, 8192, 8193, 16383, 16384, 16385, 16500, 32767, 32768, 32769, 40000, 49152, 49153, 65536}
\* an empty text carries no number: at most one in a behaviour
NoneEmpty == \A i \in DOMAIN hist : hist[i].op # "text" \/ hist[i].len # 0
Do(n, c, o) == C' = [C EXCEPT ![n] = c] /\ hist' = Append(hist, o)
TextOf(k, n) == [op |-> k, n |-> n, len |-> IF R(1..3) = 1 THEN R({0, 1, 2, 50}) ELSE R(Lens), al |-> R(1..8)]
Ups == {n \in Nodes : C[n].up}
One == \E v \in {R(1..60)}, n \in {R(Nodes)}, d \in {R({In, Out})}, r \in {R(1..5)} :
  \E w \in {IF C[n].up \/ v \in 22..24 THEN v ELSE 1} :
  \/ w <= 9 /\ \E x \in {TextOf("text", n)} : Do(n, Queue(C[n], 0), IF NoneEmpty THEN x ELSE [x EXCEPT !.len = IF @ = 0 THEN 3 ELSE @])
  \/ w \in 10..13 /\ C[n].up /\ Do(n, Connected(C[n], d), [op |-> "chan", n |-> n, d |-> d, what |-> "connected", r |-> 0])
  \/ w \in 14..16 /\ C[n].up /\ Do(n, Lost(C[n], d), [op |-> "chan", n |-> n, d |-> d, what |-> IF r <= 3 THEN "disconnected" ELSE "error", r |-> 0])
  \/ w \in 17..20 /\ C[n].up /\ Do(n, Reported(C[n], d, r = 3, 0), [op |-> "chan", n |-> n, d |-> d, what |-> "state", r |-> r])
  \/ w = 21 /\ C[n].up /\ Do(n, C[n], [op |-> "chan", n |-> n, d |-> d, what |-> "setup", r |-> R(1..4)])
  \/ w = 22 /\ Do(n, Ensure(C[n]), [op |-> "in", n |-> n, d |-> d, what |-> "setup", r |-> R(1..4)])
  \/ w = 23 /\ Do(n, Ensure(C[n]), [op |-> "in", n |-> n, d |-> d, what |-> IF r = 1 THEN "disconnect" ELSE "states", r |-> 0])
  \/ w = 24 /\ Do(n, IF r <= 3 THEN Ensure(C[n]) ELSE C[n], [op |-> "in", n |-> n, d |-> d, what |-> IF r <= 3 THEN "connect" ELSE "drop", r |-> 0])
  \/ w \in 25..30 /\ C[n].up /\ Do(n, C[n], TextOf("peer", n))
  \/ w \in 31..54 /\ C[n].up /\ Do(n, C[n], [op |-> "deliver", n |-> n, d |-> d, i |-> IF r = 1 THEN 0 ELSE R(0..50)])
  \/ w = 55 /\ C[n].up /\ Do(n, C[n], [op |-> "lose", n |-> n, i |-> R(0..50)])
  \/ w \in 56..60 /\ C[n].up /\ Do(n, C[n], [op |-> "bad", n |-> n, d |-> d, r |-> R(1..11), i |-> R(0..50)])
Init == ops \in {15, 30, 50} /\ C = <<New, New>> /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, C, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
