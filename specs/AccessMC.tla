------------------------------ MODULE AccessMC ------------------------------
(* All conditions of two levels over a few signers, and all collections of   *)
(* good and bad signatures: what being satisfied must mean.                 *)
EXTENDS Access, TLC
CONSTANTS NS, MaxN
Signers == 1..NS
L0 == {[k |-> "ver", s |-> s] : s \in Signers} \cup {[k |-> "pass"], [k |-> "fail"], [k |-> "na"]}
Badge(c, b) == [k |-> "badge", kind |-> "min", id |-> b, v |-> 1, bid |-> b, bv |-> 1, c |-> c]
Noft(X) == {[k |-> "noft", n |-> n, c |-> q] : n \in 0..MaxN, q \in UNION {[1..m -> X] : m \in 0..2}}
L1 == L0 \cup Noft(L0) \cup {Badge(c, 1) : c \in L0}
L2 == L1 \cup {[k |-> "noft", n |-> n, c |-> q] : n \in 0..MaxN, q \in [1..2 -> (L1 \ Noft(L0)) \cup Noft([k : {"ver"}, s : Signers])]}
VARIABLES cond, sigs
Init == cond \in L2 /\ sigs = [s \in {} |-> 0]
Sigs == [by : Signers, over : {1, 2}, bad : {0, 1}]
Add == \E s \in Signers \ DOMAIN sigs, x \in Sigs : sigs' = [y \in DOMAIN sigs \cup {s} |-> IF y = s THEN x ELSE sigs[y]] /\ UNCHANGED cond
Next == Add
Spec == Init /\ [][Next]_<<cond, sigs>>
Good(d) == Sat(cond, Valid(sigs, d))
\* satisfied means: some set of signers who really signed fulfils it, and nothing but the valid signatures matters
OnlyReal == \A d \in {1, 2} : Good(d) <=> \E S \in SUBSET {s \in DOMAIN sigs : sigs[s] = [by |-> s, over |-> d, bad |-> 0]} : Sat(cond, S)
Monotone == \A S, T \in SUBSET Signers : S \subseteq T /\ Sat(cond, S) => Sat(cond, T)
Foreign == \A S \in SUBSET Signers : Sat(cond, S) <=> Sat(cond, {s \in S : Mentions(cond, s)})
MatchLink == Matches(cond, Link(cond)) <=> ~ AnyNa(IF cond.k = "badge" THEN [k |-> "pass"] ELSE IF cond.k = "noft" THEN [cond EXCEPT !.c = [i \in 1..Len(cond.c) |-> IF cond.c[i].k = "badge" THEN [k |-> "pass"] ELSE cond.c[i]]] ELSE cond)
Never == [][\A d \in {1, 2} : Good(d) => Good(d)']_<<cond, sigs>>
=============================================================================
