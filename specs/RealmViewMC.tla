----------------------------- MODULE RealmViewMC -----------------------------
(* All short histories of views on a realm. (C26) *)
EXTENDS RealmView
CONSTANTS NViews, MaxBlobs, MaxVer, UseConds, Signers, TwoParents
VARIABLES g
Names == {"a", "b"}
V == 1..NViews
Lists == {<<>>} \cup {<<x>> : x \in 1..MaxBlobs} \cup (IF TwoParents THEN {<<x, y>> : x, y \in 1..MaxBlobs} ELSE {})
Init == \E c \in UseConds : g = (IF NViews = 1 THEN Open(Start("a", c, -1), 1) ELSE Open(Open(Start("a", c, -1), 1), 2))
Room == Len(g.st) < MaxBlobs
Next == \E v \in V, S \in Signers :
     \/ Room /\ \E n \in Names, c \in UseConds, p \in DOMAIN g.vs[v].pg \cup {0}, cu \in {0, 1} : g' = Create(g, v, n, p, c, cu, S, 0)
     \/ \E id \in DOMAIN g.vs[v].pg : LET b == g.vs[v].pg[id] IN
          /\ b.ver < MaxVer
          /\ \/ \E n \in Names \ {b.name} : g' = Edit(g, v, id, [b EXCEPT !.name = n], S)
             \/ \E l \in Lists : Elems(l) \subseteq (IF NViews = 1 THEN DOMAIN g.vs[v].pg ELSE DOMAIN g.st) /\ l # b.par /\ g' = Edit(g, v, id, [b EXCEPT !.par = l], S)
     \/ g' = FetchPs(g, v, DOMAIN g.vs[v].pg)
     \/ g' = WalkP(g, v, {})
     \* a single view always knows all there is to find before it edits
     \/ g' = IF NViews = 1 THEN WalkP(Open(g, v), v, {}) ELSE Open(g, v)
Spec == Init /\ [][Next]_g
Bound == \A id \in DOMAIN g.st : g.st[id].ver <= MaxVer
\* With a single view: it shows what is stored.
ViewIsStored == NViews = 1 => \A id \in DOMAIN g.vs[1].pg : g.vs[1].pg[id] = g.st[id]
NoDoubles(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* No page is listed twice by its parent.
ListedOnce == NViews = 1 => \A id \in DOMAIN g.st : NoDoubles(g.st[id].chi)
\* Where everybody may change everything and all pages are known, children and parents fit exactly.
Free == NViews = 1 /\ UseConds = {0}
Everywhere == Free => \A id \in DOMAIN g.vs[1].pg : \A q \in DOMAIN g.vs[1].pg : (q \in Elems(g.st[id].par)) => Has(g.st[q].chi, id)
NoStrays == Free => \A q \in DOMAIN g.vs[1].pg : \A id \in Elems(g.st[q].chi) \cap DOMAIN g.vs[1].pg : q \in Elems(g.st[id].par)
\* A page is found under its full path, if this starts at the root or at what is attached to the root.
RECURSIVE Top(_, _, _)
Top(w, id, seen) == IF id \in seen \/ id \notin DOMAIN w.pg THEN 0 ELSE IF w.pg[id].par = <<>> THEN id ELSE Top(w, w.pg[id].par[1], seen \cup {id})
Findable == Free => LET w == g.vs[1] IN \A id \in DOMAIN w.pg :
   LET top == Top(w, id, {}) IN top # 0 /\ top \in {w.pr} \cup Elems(At(w.pc, w.pr)) => id \in Lookup(w, FullPath(w, id, {}))
\* Whoever has a full path has an end of it.
PathEnds == \A v \in V : LET w == g.vs[v] IN \A id \in DOMAIN w.pg : (FullPath(w, id, {}) # <<>>) = (Top(w, id, {}) # 0)
\* Nothing stored is replaced by something older, or by something else of the same age.
Grows == [][\A id \in DOMAIN g.st : g'.st[id].ver > g.st[id].ver \/ g'.st[id] = g.st[id]]_g
\* A page changes only by those who may: with an update signed by what its condition asks for.
Guarded == [][\A id \in DOMAIN g.st : g'.st[id] # g.st[id] => \E S \in Signers : CanSign(g, g.st[id].cond, S)]_g
\* After refreshing, no known page is older than what is stored.
Fresh == \A v \in V : LET h == FetchPs(g, v, DOMAIN g.vs[v].pg) IN \A id \in DOMAIN g.vs[v].pg : h.vs[v].pg[id] = g.st[id]
=============================================================================
