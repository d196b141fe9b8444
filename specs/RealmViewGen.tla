----------------------------- MODULE RealmViewGen ----------------------------
EXTENDS RealmView, Json
VARIABLES ops, cfg, g, hist, done
vars == <<ops, cfg, g, hist, done>>
R(S) == RandomElement(S)
Names == {"a", "b", "c"}
\* mostly signers which fit
Fit(c) == CASE c = 0 -> R({{}, {1}, {1, 2}}) [] c \in 1..4 -> {c} [] c = 5 -> {} [] c = 12 -> R({{1}, {2}, {1, 2}}) [] c = 22 -> {1, 2} [] c = 14 -> R({{1}, {1}, {1, 4}, {4}}) [] OTHER -> {g.bd.who}
Sign(c) == IF R(1..5) = 1 THEN R(SUBSET (1..4)) ELSE Fit(c)
SeqOf(s) == LET RECURSIVE F(_) F(u) == IF u = {} THEN <<>> ELSE LET x == CHOOSE y \in u : TRUE IN <<x>> \o F(u \ {x}) IN F(s)
Conditions == <<0, 0, 0, 0, 1, 1, 1, 1, 2, 3, 12, 12, 22, 14, 4, 5, 41, 42, 43>>
Cond == Conditions[R(1..Len(Conditions))]
Known(v) == DOMAIN g.vs[v].pg
AnyId == R(1..Len(g.st) \cup {Unknown})
Page(v) == IF R(1..8) = 1 \/ Known(v) = {} THEN AnyId ELSE R(Known(v))
Do(o) == hist' = Append(hist, o @@ [see |-> R(1..4) # 1]) /\ g' = Apply(g, o, cfg.rc)
\* a new list of links, out of the old one
NewList(l, k, x, y) == CASE k = 1 -> <<>> [] k = 2 -> <<x>> [] k = 3 -> <<x, y>> [] k = 4 -> Append(l, x) [] k = 5 -> Without(l, x) [] k = 6 -> <<y>> \o l [] OTHER -> l
One == \E w \in {R(1..35)}, v \in {IF R(1..4) = 1 THEN 2 ELSE 1} :
  \E c \in {Cond}, x \in {Page(v)}, y \in {Page(v)}, z \in {Page(v)}, n \in {R(Names)}, txt \in {R(1..5)}, k \in {R(1..8)}, e \in {R(1..6)} :
  IF w <= 10 THEN \E s \in {IF R(1..3) = 1 THEN R(SUBSET (1..2)) ELSE Sign(c)}, p \in {IF R(1..5) = 1 THEN 0 ELSE x}, cu \in {<<0, 0, 0, -1, y, z, x, IF e = 1 THEN Unknown ELSE g.vs[v].pr>>[k]} :
       Do([op |-> "create", v |-> v, name |-> n, parent |-> p, cond |-> c, cu |-> cu, s |-> SeqOf(s), txt |-> txt])
  ELSE IF w <= 20 THEN
       LET b == IF x \in Known(v) THEN g.vs[v].pg[x] ELSE [name |-> "a", par |-> <<>>, chi |-> <<>>, txt |-> 0, cond |-> 0]
       IN \E s \in {IF R(1..4) = 1 THEN R(SUBSET (1..3)) ELSE Sign(b.cond)} :
       Do([op |-> "edit", v |-> v, id |-> x, name |-> IF e = 1 THEN n ELSE b.name, txt |-> IF e \in {2, 3} THEN txt ELSE b.txt,
           par |-> IF e >= 3 THEN NewList(b.par, k, y, z) ELSE b.par, chi |-> IF e = 2 /\ k <= 2 THEN NewList(b.chi, txt, y, z) ELSE b.chi, s |-> SeqOf(s)])
  ELSE IF w <= 22 THEN Do([op |-> "refresh", v |-> v])
  ELSE IF w = 23 THEN Do([op |-> "fetch", v |-> v, id |-> AnyId])
  ELSE IF w = 24 THEN Do([op |-> "attached", v |-> v, id |-> AnyId])
  ELSE IF w <= 26 THEN Do([op |-> "walk", v |-> v])
  ELSE IF w <= 27 THEN Do([op |-> "open", v |-> v, how |-> R({"id", "first", "realm"})])
  ELSE IF w = 28 THEN \E s \in {Sign(cfg.rc)} : Do([op |-> "service", v |-> v, what |-> IF R(1..4) = 1 THEN "tag" ELSE "http", id |-> x, s |-> SeqOf(s)])
  ELSE IF w = 29 THEN Do([op |-> "realm", v |-> v])
  ELSE IF w = 30 THEN \E s \in {Sign(c)} : Do([op |-> "ctag", v |-> v, name |-> n, parent |-> R({0, AnyId}), cond |-> c, cu |-> R({0, -1, 2, x}), s |-> SeqOf(s)])
  ELSE IF w = 31 THEN Do([op |-> R({"rtags", "all"}), v |-> v])
  ELSE IF w = 32 THEN Do([op |-> "ftag", v |-> v, id |-> AnyId])
  ELSE IF w = 33 THEN Do([op |-> "badge", v |-> v, who |-> R(1..3)])
  ELSE Do([op |-> "look", v |-> v, path |-> IF k <= 3 THEN <<n, R(Names)>> ELSE IF k <= 6 THEN <<"a", n, R(Names)>> ELSE <<R({"a", "b", "x"}), n, R(Names), R(Names)>>])
Init == ops \in {8, 16, 30} /\ hist = <<>> /\ done = FALSE
        /\ cfg \in [rc : {0, 1, 22}, pc : {0, 1, 12, 22, 41}, cu : {0, -1}, name : {"a"}] /\ g = Open(Open(Start(cfg.name, cfg.pc, cfg.cu), 1), 2)
Step == Len(hist) < ops /\ Len(g.st) < 30 /\ One /\ UNCHANGED <<ops, cfg, done>>
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([cfg |-> cfg, ops |-> hist])) /\ UNCHANGED <<ops, cfg, g, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
