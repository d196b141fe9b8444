---------------------------- MODULE FileStoreGen ----------------------------
EXTENDS FileStore, Json, TLC
VARIABLES ops, bs, ks, hist, done
vars == <<ops, bs, ks, hist, done>>
R(S) == RandomElement(S)
Do(o) == hist' = Append(hist, o)
Lens == {0, 1, 5, 100, 4096, 8191, 8192, 8193, 70000}
One == \E w \in {R(1..20)}, b \in {R(bs)}, k \in {R(ks)}, l \in {R(Lens)}, c \in {R(0..60)} :
  \/ w <= 8 /\ Do([op |-> "set", b |-> b, k |-> k, len |-> l])
  \/ w \in 9..11 /\ Do([op |-> "remove", b |-> b, k |-> k])
  \/ w = 12 /\ Do([op |-> "reopen"])
  \/ w \in 13..16 /\ Do([op |-> "die", b |-> b, k |-> k, len |-> l, c |-> c])
  \/ w \in 17..20 /\ Do([op |-> "full", b |-> b, k |-> k, len |-> l, c |-> c])
\* keys which are nearly the same
Near == {{1, 9, 10, 11}, {1, 12, 13}, {3, 4, 11}, {6, 7, 8}, {1, 14, 15}}
Choose == \E nb \in {R(1..2)}, x \in {R(1..6)}, m \in {R(2..3)}, near \in {R(Near)} :
          \E b \in {R({s \in SUBSET Bases : Cardinality(s) = nb})}, l \in {R({s \in SUBSET near : Cardinality(s) = 2})}, r \in {<<R(Keys), R(Keys), R(Keys)>>} :
              /\ IF x = 1 THEN bs' = {2, 3} /\ ks' = {3, 4} ELSE bs' = b /\ ks' = IF x <= 3 THEN {r[i] : i \in 1..m} ELSE l \cup {r[1]}
              /\ UNCHANGED <<ops, hist, done>>
Init == ops \in {6, 12, 20} /\ hist = <<>> /\ done = FALSE /\ bs = {} /\ ks = {}
Step == Len(hist) < ops /\ One /\ UNCHANGED <<ops, bs, ks, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, bs, ks, hist>>
Next == IF bs = {} THEN Choose ELSE Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
