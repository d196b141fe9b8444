---------------------------- MODULE AccessRandom ----------------------------
(* Arbitrary conditions and links, each drawn from one random number x.     *)
EXTENDS Access
H(x, i) == (x * 1103 + i * 12345 + 7919) % 1000003
Pick(q, x) == q[(x % Len(q)) + 1]
Kinds == <<"min", "exact", "max">>
RECURSIVE RLink(_, _, _, _)
RLink(x, d, ns, nb) ==
  LET w == (x \div 13) % 20
      ver == [k |-> "ver", s |-> ((x \div 271) % ns) + 1]
      m == (x \div 811) % 4
  IN CASE w = 0 -> [k |-> "pass"]
       [] w = 1 -> [k |-> "fail"]
       [] w \in 2..7 -> ver
       [] w \in 8..10 -> IF nb = 0 THEN ver ELSE [k |-> "badge", kind |-> Pick(Kinds, x \div 31), id |-> ((x \div 97) % nb) + 1, v |-> (x \div 17) % 3]
       [] OTHER -> IF d = 0 THEN ver ELSE
            [k |-> "noft", n |-> IF (x \div 53) % 8 = 0 THEN m + 1 ELSE (x \div 59) % (m + 1),
             c |-> CASE m = 0 -> <<>>
                     [] m = 1 -> <<RLink(H(x, 1), d - 1, ns, nb)>>
                     [] m = 2 -> <<RLink(H(x, 1), d - 1, ns, nb), RLink(H(x, 2), d - 1, ns, nb)>>
                     [] OTHER -> <<RLink(H(x, 1), d - 1, ns, nb), RLink(H(x, 2), d - 1, ns, nb), RLink(H(x, 3), d - 1, ns, nb)>>]
\* badges of a world: the link of each only names earlier ones
RECURSIVE RBadges(_, _, _)
RBadges(x, ns, n) == IF n = 0 THEN <<>> ELSE Append(RBadges(H(x, 5), ns, n - 1), [v |-> x % 3, link |-> RLink(H(x, 6), 1, ns, n - 1)])
\* another link which is nearly l
RECURSIVE Perturb(_, _)
Perturb(l, x) ==
  CASE l.k = "noft" -> LET w == x % 6 IN
         CASE w = 0 -> [l EXCEPT !.n = @ + 1]
           [] w = 1 /\ l.c # <<>> -> [l EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)]
           [] w = 2 -> [l EXCEPT !.c = Append(@, [k |-> "pass"])]
           [] w = 3 /\ l.c # <<>> -> l.c[1]
           [] l.c # <<>> -> [l EXCEPT !.c[((x \div 7) % Len(l.c)) + 1] = Perturb(@, H(x, 3))]
           [] OTHER -> [k |-> "noft", n |-> 1, c |-> <<l>>]
    [] l.k = "ver" -> IF x % 3 = 0 THEN [k |-> "noft", n |-> 1, c |-> <<l>>] ELSE [l EXCEPT !.s = @ + 1]
    [] l.k = "badge" -> (CASE x % 3 = 0 -> [l EXCEPT !.v = @ + 1] [] x % 3 = 1 -> [l EXCEPT !.id = @ + 1] [] OTHER -> [l EXCEPT !.kind = Pick(Kinds, x \div 7)])
    [] l.k = "pass" -> [k |-> "fail"]
    [] OTHER -> [k |-> "pass"]
RECURSIVE NoNa(_)
NoNa(l) == CASE l.k = "na" -> [k |-> "fail"]
             [] l.k = "noft" -> [l EXCEPT !.c = IF @ = <<>> THEN <<>> ELSE [i \in 1..Len(@) |-> NoNa(@[i])]]
             [] OTHER -> l
=============================================================================
