-------------------------------- MODULE Access ------------------------------
(* Access conditions. Signers are numbers; a condition is                   *)
(*   [k: "ver", s] | [k: "badge", kind, id, v, bid, bv, c] | [k: "noft", n, c: <<..>>]  *)
(*   | [k: "pass"] | [k: "fail"] | [k: "na"] (could not be resolved)        *)
(* and its link the same without what badges contain (bid, bv, c).          *)
(* A signature is [by, over, bad]: whose key made it, over what, bad # 0    *)
(* when it was damaged.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Accepts(kind, v, x) == CASE kind = "min" -> v <= x [] kind = "exact" -> v = x [] kind = "max" -> v >= x
\* fulfilled by the signers S together
RECURSIVE Sat(_, _)
Sat(c, S) ==
  CASE c.k = "ver" -> c.s \in S
    [] c.k = "badge" -> Sat(c.c, S)
    [] c.k = "noft" -> Cardinality({i \in 1..Len(c.c) : Sat(c.c[i], S)}) >= c.n
    [] c.k = "pass" -> TRUE
    [] OTHER -> FALSE
RECURSIVE Mentions(_, _)
Mentions(c, s) == CASE c.k = "ver" -> c.s = s
                    [] c.k = "badge" -> Mentions(c.c, s)
                    [] c.k = "noft" -> \E i \in 1..Len(c.c) : Mentions(c.c[i], s)
                    [] c.k = "pass" -> TRUE
                    [] OTHER -> FALSE
RECURSIVE Link(_)
Link(c) == CASE c.k = "badge" -> [k |-> "badge", kind |-> c.kind, id |-> c.id, v |-> c.v]
             [] c.k = "noft" -> [k |-> "noft", n |-> c.n, c |-> [i \in 1..Len(c.c) |-> Link(c.c[i])]]
             [] OTHER -> c
\* same structure and identities
RECURSIVE Matches(_, _)
Matches(c, l) ==
  /\ c.k = l.k /\ c.k # "na"
  /\ CASE c.k = "ver" -> c.s = l.s
       [] c.k = "badge" -> c.kind = l.kind /\ c.id = l.id /\ c.v = l.v /\ c.bid = c.id /\ Accepts(c.kind, c.v, c.bv)
       [] c.k = "noft" -> c.n = l.n /\ Len(c.c) = Len(l.c) /\ \A i \in 1..Len(c.c) : Matches(c.c[i], l.c[i])
       [] OTHER -> TRUE
RECURSIVE HasBadge(_)
HasBadge(l) == l.k = "badge" \/ (l.k = "noft" /\ \E i \in 1..Len(l.c) : HasBadge(l.c[i]))
RECURSIVE AnyNa(_)
AnyNa(c) == CASE c.k = "na" -> TRUE [] c.k = "badge" -> AnyNa(c.c) [] c.k = "noft" -> \E i \in 1..Len(c.c) : AnyNa(c.c[i]) [] OTHER -> FALSE
\* who has a valid signature over d in sigs
Valid(sigs, d) == {s \in DOMAIN sigs : sigs[s].by = s /\ sigs[s].bad = 0 /\ sigs[s].over = d}
\* badges: sequence of [v: version, link], each referring to earlier ones only
RECURSIVE Resolve(_, _, _)
Resolve(l, known, badges) ==
  CASE l.k = "ver" -> IF l.s \in known THEN l ELSE [k |-> "na"]
    [] l.k = "badge" -> IF l.id \in 1..Len(badges) /\ Accepts(l.kind, l.v, badges[l.id].v)
         THEN [k |-> "badge", kind |-> l.kind, id |-> l.id, v |-> l.v, bid |-> l.id, bv |-> badges[l.id].v, c |-> Resolve(badges[l.id].link, known, badges)]
         ELSE [k |-> "na"]
    [] l.k = "noft" -> [l EXCEPT !.c = [i \in 1..Len(l.c) |-> Resolve(l.c[i], known, badges)]]
    [] OTHER -> l
=============================================================================
