-------------------------------- MODULE FloGen ------------------------------
EXTENDS Flo, AccessRandom, Json, IOUtils, TLC
VARIABLES sh, fl, good, hist, done
vars == <<sh, fl, good, hist, done>>
R(S) == RandomElement(S)
X == 0..1000002
RECURSIVE NoNaC(_)
NoNaC(c) == CASE c.k = "na" -> [k |-> "fail"]
              [] c.k = "badge" -> [c EXCEPT !.c = NoNaC(@)]
              [] c.k = "noft" -> [c EXCEPT !.c = IF @ = <<>> THEN <<>> ELSE [i \in 1..Len(@) |-> NoNaC(@[i])]]
              [] OTHER -> c
Full(l) == NoNaC(Resolve(NoNa(l), 1..(sh.ns + 4), sh.badges))
RC(x) == IF x % 3 = 0 THEN [k |-> "ver", s |-> ((x \div 3) % sh.ns) + 1] ELSE Full(RLink(x, 2, sh.ns, Len(sh.badges)))
\* who signs: everybody the condition names, some of them, or somebody
Who(c, x) == LET m == {s \in 1..sh.ns : Mentions(c, s)} IN
  CASE x % 8 < 5 -> m
    [] x % 8 < 7 -> {s \in m : (x \div 16) % (s + 1) # 0}
    [] OTHER -> {s \in 1..sh.ns : (x \div 8) % (s + 1) = 0}
Do(o, f) == \E g \in {f} : hist' = Append(hist, o) /\ fl' = Append(fl, g) /\ good' = (IF Verify(g) THEN good \cup {Len(fl) + 1} ELSE good) /\ UNCHANGED <<sh, done>>
Look(o) == hist' = Append(hist, o) /\ UNCHANGED <<sh, done, fl, good>>
New == \E x \in {R(X)}, y \in {R(X)}, ty \in {R(1..3)}, cuc \in {R(0..3)}, force \in {R({0, 0, 0, 1, 2})}, d \in {R(1..3)} :
  LET c == RC(x)  W == Who(c, y) IN
  Do([op |-> "new", ty |-> ty, cuc |-> cuc, force |-> force, c |-> c, S |-> W, x |-> d], Create(ty, cuc, force, 100 + Len(hist), c, W, d))
Ident == \E x \in {R(X)}, ty \in {R(1..3)}, cuc \in {R(0..3)}, force \in {R({0, 0, 0, 1, 2})}, n \in {R(1..2)}, o \in {R(1..4)} :
  LET l == IF o <= 2 THEN [k |-> "ver", s |-> o] ELSE NoNa(RLink(x, 1, sh.ns, Len(sh.badges))) IN
  Do([op |-> "id", ty |-> ty, cuc |-> cuc, force |-> force, nonce |-> n, l |-> l],
     [Create(ty, cuc, force, n, [k |-> "fail"], {}, 1) EXCEPT !.glink = l, !.gc = [k |-> "na"], !.dc = [k |-> "na"]])
\* mostly go on from what verifies
Longest == {n \in good : \A m \in good : Len(fl[m].ups) <= Len(fl[n].ups)}
From(p) == CASE p = 1 \/ good = {} -> R(1..Len(fl)) [] p = 2 -> Len(fl) [] p \in 3..6 -> R(Longest) [] OTHER -> R(good)
Some == \E w \in {R(1..40)}, x \in {R(X)}, y \in {R(X)}, z \in {R(X)}, f \in {From(R(1..10))}, g \in {From(R(4..10))}, d \in {R(1..3)}, i \in {R(1..3)} :
  LET F == fl[f]  G == fl[g]
      cur == Full(Current(F))
      c == IF x % 8 = 0 THEN RC(H(x, 9)) ELSE cur
      W == Who(c, y)
  IN
  \/ w \in 1..2 /\ New
  \/ w \in 3..4 /\ Ident
  \/ w \in 5..15 /\ Do([op |-> "edit", f |-> f, c |-> c, x |-> d, S |-> W, via |-> i], Edit(F, c, d, W))
  \/ w \in 16..22 /\ Len(F.ups) < 5 /\ LET c2 == RC(z)  Y == Who(c2, H(y, 4)) IN
       Do([op |-> "cond", f |-> f, c |-> c, c2 |-> c2, S |-> W, Y |-> Y, via |-> (i % 2) + 1], NewCond(F, c, c2, W, Y))
  \/ w \in 23..25 /\ Do([op |-> "ser", f |-> f, fmt |-> i], F)
  \/ w = 26 /\ Look([op |-> "open", f |-> f, ty |-> IF x % 2 = 0 THEN F.ty ELSE d])
  \/ w \in 27..40 /\ \E what \in {Pick(<<"data", "dv", "ty", "cuc", "force", "nonce", "glink", "gcond", "dcond", "ulink", "ucond", "drop", "dup", "swap", "badsig", "delsig",
                                        "badsig", "delsig", "copysigs", "copydata", "copygen", "copyid", "copyups", "ulink", "dcond", "ucond">>, x)} :
       LET p == IF z % 3 = 0 THEN 0 ELSE IF z % 3 = 1 THEN 99 ELSE IF F.ups = <<>> THEN i ELSE (i % Len(F.ups)) + 1
           sigw == what \in {"badsig", "delsig", "copysigs"}
           o == [op |-> "tamper", what |-> what, f |-> f, g |-> g, x |-> IF what = "force" THEN d - 1 ELSE d, i |-> IF sigw THEN p ELSE IF F.ups = <<>> THEN i ELSE (i % Len(F.ups)) + 1, j |-> IF y % 3 = 0 THEN 0 ELSE IF y % 3 = 1 THEN 99 ELSE i, s |-> ((z \div 7) % sh.ns) + 1,
                 c |-> RC(y), l |-> Link(RC(y))]
       IN Do(o, Tamper(F, o, G))
Choose == \E ns \in {RandomElement(2..4)}, nb \in {RandomElement(0..3)}, x \in {R(X)}, n \in {RandomElement({10, 25})} :
             /\ sh' = [ns |-> ns, badges |-> IF x % 3 = 0 THEN RBadges(x, ns, IF nb = 3 THEN 0 ELSE nb) ELSE <<>>, ops |-> n]
             /\ UNCHANGED <<fl, good, hist, done>>
Init == sh = [ns |-> 0, badges |-> <<>>, ops |-> 1] /\ fl = <<>> /\ good = {} /\ hist = <<>> /\ done = FALSE
Step == Len(hist) < sh.ops /\ IF hist = <<>> THEN New ELSE Some
Finish == Len(hist) = sh.ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([shape |-> sh, ops |-> hist])) /\ UNCHANGED <<sh, fl, good, hist>>
Next == IF sh.ns = 0 THEN Choose ELSE Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
