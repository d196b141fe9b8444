------------------------------ MODULE AccessGen -----------------------------
EXTENDS AccessRandom, Json, IOUtils, TLC
VARIABLES sh, cond, hist, done
vars == <<sh, cond, hist, done>>
R(S) == RandomElement(S)
X == 0..1000002
Do(o) == hist' = Append(hist, o) /\ UNCHANGED <<sh, done>>
Same == UNCHANGED cond
SetCond == \E x \in {R(X)}, w \in {R(1..4)} :
  LET l == RLink(x, 3, sh.ns, Len(sh.badges))
      full == Resolve(l, 1..sh.ns, sh.badges)
      part == Resolve(l, {s \in 1..sh.ns : (x \div 3) % (s + 1) # 0}, sh.badges)
      c == IF w = 1 THEN part ELSE full
  IN /\ cond' = c /\ Do([op |-> "cond", c |-> c, keep |-> x % 2])
\* everybody signs, then the condition becomes a similar one: the signatures were not made for it
Bound(x, m) == \E c2 \in {Resolve(Perturb(NoNa(Link(cond)), x), 1..sh.ns, sh.badges)} :
  /\ cond' = c2
  /\ hist' = hist \o [s \in 1..sh.ns |-> [op |-> "sign", s |-> s, m |-> m]] \o <<[op |-> "cond", c |-> c2, keep |-> 1], [op |-> "vmsg", m |-> m]>>
  /\ UNCHANGED <<sh, done>>
Some == \E w \in {R(1..31)}, x \in {R(X)}, s \in {R(1..sh.ns)}, y \in {R(1..sh.ns)}, m \in {R(1..2)}, b \in {R(0..4)} :
  \/ w = 1 /\ SetCond
  \/ w \in 2..7 /\ Do([op |-> "sign", s |-> s, m |-> m]) /\ Same
  \/ w \in 8..12 /\ Do([op |-> "signd", s |-> s, m |-> m]) /\ Same
  \/ w \in 13..14 /\ Do([op |-> "put", s |-> s, by |-> IF m = 1 THEN s ELSE y, m |-> m, bad |-> b]) /\ Same
  \/ w = 15 /\ Do([op |-> "damage", s |-> s, bad |-> b]) /\ Same
  \/ w = 16 /\ Do([op |-> "move", s |-> s, y |-> y]) /\ Same
  \/ w = 17 /\ Do([op |-> "del", s |-> s]) /\ Same
  \/ w = 18 /\ Do([op |-> "ser", f |-> (x % 3) + 1]) /\ Same
  \/ w \in 19..21 /\ Do([op |-> "vmsg", m |-> m]) /\ Same
  \/ w \in 22..24 /\ Do([op |-> "vdig", m |-> m]) /\ Same
  \/ w \in 25..27 /\ LET l == NoNa(Link(cond)) IN
       Do([op |-> "match", l |-> CASE w = 25 -> l [] w = 26 -> Perturb(l, x) [] OTHER -> RLink(x, 2, sh.ns, Len(sh.badges))]) /\ Same
  \/ w \in 28..29 /\ \E S \in {R(SUBSET (1..sh.ns))} : Do([op |-> "can", S |-> S]) /\ Same
  \/ w = 31 /\ Bound(x, m)
  \/ w = 30 /\ Do([op |-> "resolve", l |-> RLink(x, 2, sh.ns, Len(sh.badges) + 1), via |-> m]) /\ Same
Choose == \E ns \in {RandomElement(2..4)}, nb \in {RandomElement(0..3)}, x \in {R(X)}, n \in {RandomElement({20, 40})} :
             /\ sh' = [ns |-> ns, badges |-> RBadges(x, ns, nb), known |-> {s \in 1..ns : (x \div 7) % (s + 2) # 0}, ops |-> n]
             /\ UNCHANGED <<cond, hist, done>>
Init == sh = [ns |-> 0, badges |-> <<>>, known |-> {}, ops |-> 1] /\ cond = [k |-> "na"] /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < sh.ops /\ IF hist = <<>> THEN SetCond ELSE Some
Finish == Len(hist) >= sh.ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([shape |-> sh, ops |-> hist])) /\ UNCHANGED <<sh, cond, hist>>
Next == IF sh.ns = 0 THEN Choose ELSE Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
