-------------------------------- MODULE FloMC -------------------------------
(* An owner with two keys and somebody with another key who may alter,       *)
(* recombine and sign anything with that key: whatever still verifies under  *)
(* the owner's identity was written by the owner.                            *)
EXTENDS Flo, TLC
CONSTANTS Pool, Datas
VARIABLES flos, wrote, conds
vars == <<flos, wrote, conds>>
V(s) == [k |-> "ver", s |-> s]
Owner == 1
Conds == {V(1), V(2), [k |-> "noft", n |-> 2, c |-> <<V(1), V(2)>>]}
Mine(c) == {s \in {1, 2} : Mentions(c, s)}
First == Create(1, 0, 0, 1, V(1), {1}, 1)
\* what the owner ever signed: contents with their version and number of conditions, and conditions in their place
Init == flos = {First} /\ wrote = {<<1, 0, 0>>} /\ conds = {}
Add(f) == flos' = flos \cup {f}
CondOf(l) == l  \* no badges here: a link is its own condition
HonestEdit == \E f \in flos, d \in Datas :
  /\ Verify(f) /\ Id(f) = Id(First) /\ Sat(CondOf(Current(f)), {1, 2})
  /\ Add(Edit(f, Current(f), d, Mine(Current(f)))) /\ wrote' = wrote \cup {<<d, f.dv + 1, Len(f.ups)>>} /\ UNCHANGED conds
HonestCond == \E f \in flos, c \in Conds :
  /\ Verify(f) /\ Id(f) = Id(First) /\ Sat(CondOf(Current(f)), {1, 2}) /\ Len(f.ups) < 2
  /\ Add(NewCond(f, Current(f), c, Mine(Current(f)), Mine(c)))
  /\ wrote' = wrote \cup {<<f.data, f.dv, Len(f.ups) + 1>>} /\ conds' = conds \cup {<<Len(f.ups) + 1, c>>}
Evil == V(3)
EvilOps(f, g) ==
  {Edit(f, c, d, {3}) : c \in {Evil, [k |-> "pass"]}, d \in Datas}
  \cup {NewCond(f, Evil, c, {3}, {3}) : c \in {Evil}}
  \cup {Tamper(f, o, g) : o \in
     {[what |-> w, x |-> x, i |-> i, j |-> j, s |-> s, c |-> c, l |-> c] :
        w \in {"data", "dv", "nonce", "glink", "gcond", "dcond", "ulink", "ucond", "drop", "dup", "swap", "copysigs", "copydata", "copygen", "copyid", "copyups"},
        x \in {2}, i \in {0, 1, 99}, j \in {0, 1, 99}, s \in {1}, c \in {Evil, [k |-> "pass"], V(1)}}}
Attack == \E f, g \in flos : \E h \in EvilOps(f, g) : h \notin flos /\ Add(h) /\ UNCHANGED <<wrote, conds>>
Next == Cardinality(flos) < Pool /\ (HonestEdit \/ HonestCond \/ Attack)
Spec == Init /\ [][Next]_vars
Authentic == \A f \in flos : Verify(f) /\ Id(f) = Id(First) =>
  /\ <<f.data, f.dv, Len(f.ups)>> \in wrote
  /\ \A i \in 1..Len(f.ups) : <<i, f.ups[i].link>> \in conds
\* what the owner writes verifies and stays the same Flo
Progress == [][(HonestEdit \/ HonestCond) => \A f \in flos' \ flos : Verify(f) /\ Id(f) = Id(First)]_vars
=============================================================================
