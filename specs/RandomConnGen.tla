---------------------------- MODULE RandomConnGen ---------------------------
(* Behaviours of one random-connections module (and the routers above it).  *)
EXTENDS RandomConn, Json, IOUtils, TLC
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLES sh, st, hist, done
vars == <<sh, st, hist, done>>
c == Shapes[sh]
Nodes == 2..c.n
R(S) == RandomElement(S)
Prefer(S) == IF S # {} /\ R(1..10) <= 8 THEN R(S) ELSE R(Nodes)
Some(m) == [i \in 1..R(0..m) |-> <<R(1..c.n), R(1..2)>>]
Once(l) == SelectSeq([i \in 1..Len(l) |-> IF \E j \in 1..(i-1) : l[j][1] = l[i][1] THEN <<0, 0>> ELSE l[i]], LAMBDA x : x[1] # 0)
Do(o) == \E s2 \in {After(st, o)} : \E h \in {IF o.op \in Filling THEN Wants(c, s2, Half(c, s2)) ELSE 0} :
  \E S \in {{R(Unused(s2)) : x \in 1..h}} :
  st' = Asked(s2, S) /\ hist' = Append(hist, o)
\* in half of the behaviours, time passes quickly
One == \E w \in {IF c.n % 2 = 1 /\ R(1..3) # 1 THEN 26 ELSE R(1..32)} :
  \/ w <= 4 /\ \E l \in {Once(Some(c.list))} : Do([op |-> "list", l |-> l])
  \/ w \in 5..9 /\ \E f \in {Prefer(st.X)} : Do([op |-> "con", f |-> f])
  \/ w \in 10..11 /\ \E f \in {Prefer(st.C)} : Do([op |-> "con", f |-> f])
  \/ w \in 12..14 /\ \E f \in {Prefer(st.C)} : Do([op |-> "disc", f |-> f])
  \/ w = 15 /\ \E f \in {Prefer(st.X)} : Do([op |-> "disc", f |-> f])
  \/ w \in 16..17 /\ \E f \in {Prefer(st.C)} : Do([op |-> "msg", f |-> f])
  \/ w = 18 /\ \E f \in {Prefer(st.X)} : Do([op |-> "msg", f |-> f])
  \/ w = 19 /\ \E f \in {Prefer(st.C)} : Do([op |-> "drop", f |-> f])
  \/ w = 20 /\ \E f \in {Prefer(st.C \cup st.X)} : Do([op |-> "fail", f |-> f])
  \/ w \in 21..22 /\ \E f \in {Prefer(st.C)} : Do([op |-> "send", f |-> f])
  \/ w = 23 /\ \E f \in {Prefer(st.X \cup st.C)} : Do([op |-> "send", f |-> f])
  \/ w = 24 /\ \E f \in {Prefer(st.C)} : Do([op |-> "junk", f |-> f])
  \/ w = 25 /\ Do([op |-> "config"])
  \/ w \in 31..32 /\ \E f \in {R(Nodes)} : Do([op |-> "state", f |-> f])
  \/ w \in 26..30 /\ Do([op |-> "tick"])
Init == sh \in 1..Len(Shapes) /\ st = Empty /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < c.ops /\ One /\ UNCHANGED <<sh, done>>
Finish == Len(hist) = c.ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([shape |-> c, ops |-> hist])) /\ UNCHANGED <<sh, st, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
