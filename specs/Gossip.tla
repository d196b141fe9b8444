------------------------------- MODULE Gossip -------------------------------
(* The gossip events: what a node holds, and how it exchanges events.       *)
(*   c.events[e] = [cat, src, t]   c.max[cat]   category 2: one per source  *)
(* A node is [held: set of events, nb: set of its neighbours]               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

ToSet(s) == {s[i] : i \in 1..Len(s)}
InCat(c, H, k) == {e \in H : c.events[e].cat = k}
T(c, e) == c.events[e].t
Unique(c, e) == c.events[e].cat = 2

\* all ways to respect the limit of a category: the oldest goes
Limited(c, H, k) == LET K == InCat(c, H, k) IN
  IF Cardinality(K) <= c.max[k] THEN {H} ELSE {H \ {x} : x \in {y \in K : \A z \in K : T(c, y) <= T(c, z)}}
\* all results of receiving e; of events of the same time and source either may be kept
Added(c, H, e) ==
  IF e \in H THEN {H}
  ELSE LET k == c.events[e].cat
           old == IF Unique(c, e) THEN {x \in InCat(c, H, k) : c.events[x].src = c.events[e].src} ELSE {}
           newest == \A x \in old : T(c, x) < T(c, e)
           tie == \E x \in old : T(c, x) = T(c, e)
       IN (IF newest \/ tie THEN Limited(c, (H \ old) \cup {e}, k) ELSE {}) \cup (IF ~newest THEN {H} ELSE {})
\* all results <<held, reported as new>> of a list of events
RECURSIVE AddAll(_, _, _)
AddAll(c, R, l) == IF l = <<>> THEN R
  ELSE AddAll(c, UNION {{<<h, IF Head(l) \in h /\ Head(l) \notin r[1] THEN Append(r[2], Head(l)) ELSE r[2]>> : h \in Added(c, r[1], Head(l))} : r \in R}, Tail(l))

\* ---- what is to be held of all events S which ever came in ---------------------------------
NewestOf(c, S, k) == IF k = 1 THEN InCat(c, S, 1)
  ELSE {e \in InCat(c, S, 2) : \A x \in InCat(c, S, 2) : c.events[x].src = c.events[e].src => T(c, x) <= T(c, e)}
Srcs(c, S) == {c.events[e].src : e \in S}
IsNewest(c, S, H) ==
  /\ H \subseteq S
  /\ LET A == InCat(c, S, 1) h == InCat(c, H, 1) IN
       /\ Cardinality(h) = Min({c.max[1], Cardinality(A)})
       /\ \A d \in A \ h, e \in h : T(c, e) >= T(c, d)
  /\ LET A == NewestOf(c, S, 2) h == InCat(c, H, 2) IN
       /\ h \subseteq A /\ Cardinality(Srcs(c, h)) = Cardinality(h)
       /\ Cardinality(h) = Min({c.max[2], Cardinality(Srcs(c, A))})
       /\ \A d \in A, e \in h : c.events[d].src \notin Srcs(c, h) => T(c, e) >= T(c, d)

\* ---- the exchange: messages a node sends in reaction, as [f, t, k, ids] ---------------------
Mess(f, t, k, ids) == [f |-> f, t |-> t, k |-> k, ids |-> ids]
Announce(c, me, nb, src, new) == {Mess(me, n, "known", {e \in new : c.events[e].src # n}) : n \in nb \ {src, me}}
React(c, me, held, m, new, nb) ==
  CASE m.k = "known"  -> LET u == m.ids \ held IN IF u = {} THEN {} ELSE {Mess(me, m.f, "req", u)}
    [] m.k = "req"    -> LET h == m.ids \cap held IN IF h = {} THEN {} ELSE {Mess(me, m.f, "events", h)}
    [] m.k = "reqIds" -> {Mess(me, m.f, "known", held)}
    [] m.k = "events" -> Announce(c, me, nb, m.f, new)
=============================================================================
