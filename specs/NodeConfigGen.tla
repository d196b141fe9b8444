---------------------------- MODULE NodeConfigGen ---------------------------
EXTENDS NodeConfig, Sequences, Integers, Json, TLC
VARIABLES ops, hist, done
vars == <<ops, hist, done>>
R(S) == RandomElement(S)
Do(o) == hist' = Append(hist, o)
RSet(S) == {x \in S : R(1..10) <= 7}
\* every subset, but mostly most of them
Mods(S) == IF R(1..4) = 1 THEN R(SUBSET S) ELSE RSet(S)
Names == 1..30
One == \E w \in {R(1..50)}, key \in {R(1..4)}, n \in {R(Names)}, c \in {R({1, 2, 3, 12})}, far \in {R(11..13)}, m \in {Mods(0..7)}, m1 \in {Mods(V1Mods)} :
  IF w <= 6 \/ (hist = <<>> /\ w <= 30) THEN \E fm \in {R({"cur", "cur", "json", "info2", "v1", "v1", "v1nomod"})} :
       Do([op |-> "write", fmt |-> fm, key |-> key, name |-> n, client |-> c, mods |-> IF fm \in {"cur", "json"} THEN m ELSE IF fm = "v1nomod" THEN V1Mods ELSE m1])
  ELSE IF w <= 8 THEN Do([op |-> "spoil", r |-> R(1..8)])
  ELSE IF w <= 13 THEN Do([op |-> "get"])
  ELSE IF w <= 16 THEN Do([op |-> "rename", name |-> n])
  ELSE IF w <= 19 THEN Do([op |-> "sign", a |-> key, b |-> IF R(1..2) = 1 THEN key ELSE R(1..4), t |-> R({0, 0, 1, 2, 3, 4}), r |-> R(1..255)])
  ELSE IF w <= 23 THEN \E fm \in {R({"cur", "cur", "json", "rmp", "v2", "v2nomod"})} :
       Do([op |-> "info", fmt |-> fm, key |-> key, name |-> n, client |-> c, mods |-> IF fm \in {"cur", "json", "rmp"} THEN m ELSE IF fm = "v2nomod" THEN V1Mods ELSE m1])
  ELSE IF w = 24 THEN Do([op |-> "badinfo", r |-> R(1..8)])
  ELSE IF w = 25 THEN Do([op |-> "odd", len |-> R({0, 1, 31, 32, 33, 64}), r |-> R(1..255)])
  ELSE IF w = 26 THEN Do([op |-> "id", r |-> R(1..14)])
  ELSE IF w <= 31 THEN Do([op |-> "start", g |-> R({0, 1, 2, 3, 4, R(5..9)})])
  ELSE IF w <= 34 THEN Do([op |-> "hear", key |-> far, name |-> n, dt |-> R({-2, -1, 0, 1, 2})])
  ELSE IF w = 35 THEN Do([op |-> "hearbad", r |-> R(1..8), len |-> R({0, 1, 31, 33})])
  ELSE IF w <= 38 THEN Do([op |-> "say", name |-> n])
  ELSE IF w <= 41 THEN Do([op |-> "list", keys |-> {R(1..4), R(11..14), R(11..13)}])
  ELSE IF w <= 44 THEN Do([op |-> "link", key |-> R({11, 11, 12, 13, 14}), up |-> R({0, 1, 1})])
  ELSE IF w >= 47 THEN Do([op |-> "signer", who |-> R(0..1), act |-> R({"get", "get", "add"}), spoil |-> IF R(1..10) = 1 THEN R(1..2) ELSE 0])
  ELSE Do([op |-> "infos", keys |-> {R(1..4), R(11..13), R(14..16)}])
Init == ops \in {6, 12, 25} /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
