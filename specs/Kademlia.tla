------------------------------ MODULE Kademlia ------------------------------
(* The routing table of one DHT node.                                       *)
(*  c = [k, pi: ping interval, pt: ping timeout, depth: id -> common bits]  *)
(* First the algorithm, for the exhaustive model and the generator, then    *)
(* the rules any implementation has to respect, used to judge real traces.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Els(s) == {s[i] : i \in 1..Len(s)}
D(c, id) == c.depth[id]
\* ---- the algorithm: K = [b: <<[a, x]..>>, r: [a, x], s: id -> silent ticks] -----------------
NewTable == [b |-> <<>>, r |-> [a |-> <<>>, x |-> <<>>], s |-> [i \in {} |-> 0]]
InB(B) == Els(B.a) \cup Els(B.x)
Members(K) == InB(K.r) \cup UNION {InB(K.b[i]) : i \in 1..Len(K.b)}
Actives(K) == Els(K.r.a) \cup UNION {Els(K.b[i].a) : i \in 1..Len(K.b)}
Count(B) == Len(B.a) + Len(B.x)
First(c, B) == Min({D(c, i) : i \in InB(B)})
Imbalance(c, B) == Count(B) - Cardinality({i \in InB(B) : D(c, i) = First(c, B)}) < c.k
Overflowing(c, B) == Count(B) >= 2 * c.k /\ ~Imbalance(c, B)
Wanting(c, B) == Count(B) < c.k
ByDepth(c, s) == SortSeq(s, LAMBDA x, y : D(c, x) < D(c, y))
PutActive(c, B, id, root) == IF root \/ Len(B.a) < c.k THEN [B EXCEPT !.a = ByDepth(c, Append(@, id))]
                             ELSE IF Len(B.x) < c.k THEN [B EXCEPT !.x = Append(@, id)] ELSE B
PutCache(c, B, id, root) == IF root \/ Len(B.x) < 2 * c.k THEN [B EXCEPT !.x = Append(@, id)] ELSE B
RECURSIVE PutActives(_, _, _, _), PutCaches(_, _, _, _), Split(_, _), Merge(_, _)
PutActives(c, B, l, root) == IF l = <<>> THEN B ELSE PutActives(c, PutActive(c, B, Head(l), root), Tail(l), root)
PutCaches(c, B, l, root) == IF l = <<>> THEN B ELSE PutCaches(c, PutCache(c, B, Head(l), root), Tail(l), root)
Take(s, n) == SubSeq(s, 1, Min({n, Len(s)}))
Split(c, K) == IF ~Overflowing(c, K.r) THEN K ELSE
  LET d == Len(K.b)
      max == IF Count(K.r) > c.k THEN Count(K.r) - c.k ELSE 0
      xs == Take(SelectSeq(K.r.x, LAMBDA i : D(c, i) = d), max)
      as == Take(SelectSeq(K.r.a, LAMBDA i : D(c, i) = d), max - Len(xs))
      B == PutCaches(c, PutActives(c, [a |-> <<>>, x |-> <<>>], as, FALSE), xs, FALSE)
      R == [a |-> SelectSeq(K.r.a, LAMBDA i : i \notin Els(as)), x |-> SelectSeq(K.r.x, LAMBDA i : i \notin Els(xs))]
  IN Split(c, [K EXCEPT !.b = Append(@, B), !.r = R])
Merge(c, K) == IF ~Wanting(c, K.r) \/ K.b = <<>> THEN K ELSE
  LET B == K.b[Len(K.b)] IN
  Merge(c, [K EXCEPT !.b = SubSeq(@, 1, Len(@) - 1), !.r = PutCaches(c, PutActives(c, @, B.a, TRUE), B.x, TRUE)])
Fit(K) == [K EXCEPT !.s = [i \in Members(K) |-> K.s[i]]]
Add(c, K, id) ==
  IF id \in Members(K) THEN K ELSE
  LET K2 == [K EXCEPT !.s = [i \in DOMAIN @ \cup {id} |-> IF i = id THEN c.pi - 1 ELSE @[i]]] IN
  Fit(IF D(c, id) < Len(K.b) THEN [K2 EXCEPT !.b[D(c, id) + 1] = PutCache(c, @, id, FALSE)]
      ELSE Split(c, [K2 EXCEPT !.r = PutCache(c, @, id, TRUE)]))
RECURSIVE AddList(_, _, _)
AddList(c, K, l) == IF l = <<>> THEN K ELSE AddList(c, Add(c, K, Head(l)), Tail(l))
Drop(B, S) == [a |-> SelectSeq(B.a, LAMBDA i : i \notin S), x |-> SelectSeq(B.x, LAMBDA i : i \notin S)]
RemoveNode(c, K, id) ==
  Fit(IF D(c, id) < Len(K.b) THEN [K EXCEPT !.b[D(c, id) + 1] = Drop(@, {id})]
      ELSE Merge(c, [K EXCEPT !.r = Drop(@, {id})]))
HeardB(c, B, id, root) == IF id \notin Els(B.x) THEN B
   ELSE LET B2 == Drop(B, {id}) IN IF root \/ Len(B.a) < c.k THEN [B2 EXCEPT !.a = ByDepth(c, Append(@, id))] ELSE [B2 EXCEPT !.x = Append(@, id)]
Heard(c, K, id) == IF id \notin Members(K) THEN K ELSE
   LET K2 == [K EXCEPT !.s[id] = 0] IN
   IF D(c, id) < Len(K.b) THEN [K2 EXCEPT !.b[D(c, id) + 1] = HeardB(c, @, id, FALSE)] ELSE [K2 EXCEPT !.r = HeardB(c, @, id, TRUE)]
Ticked(c, B, root) == Els(B.a) \cup Els(Take(B.x, IF root THEN Len(B.x) ELSE 2 * c.k - Len(B.a)))
TickedAll(c, K) == Ticked(c, K.r, TRUE) \cup UNION {Ticked(c, K.b[i], FALSE) : i \in 1..Len(K.b)}
Pings(c, K) == {i \in TickedAll(c, K) : (K.s[i] + 1) % c.pi = 0}
Dead(c, K) == {i \in TickedAll(c, K) : K.s[i] + 1 >= c.pt}
Tick(c, K) == Fit([K EXCEPT !.s = [i \in DOMAIN @ |-> IF i \in TickedAll(c, K) THEN @[i] + 1 ELSE @[i]],
                             !.b = [i \in 1..Len(@) |-> Drop(@[i], Dead(c, K))], !.r = Drop(@, Dead(c, K))])

\* ---- the rules ---------------------------------------------------------------------------
\* O = [nb: number of buckets besides the root's, a: active nodes, x: waiting nodes (sets)]
\* s: id -> [n: longest it can have been silent, ex: it is exactly this]
AtD(c, S, d) == {i \in S : D(c, i) = d}
InRoot(c, O, S) == {i \in S : D(c, i) >= O.nb}
Abs(K) == [nb |-> Len(K.b), a |-> Actives(K), x |-> Members(K) \ Actives(K)]
Shape(c, O) ==
  /\ O.a \cap O.x = {}
  /\ \A d \in 0..(O.nb - 1) : /\ Cardinality(AtD(c, O.a, d)) <= c.k
                              /\ Cardinality(AtD(c, O.x, d)) <= 2 * c.k
  /\ LET R == InRoot(c, O, O.a \cup O.x) IN R # {} =>
       \/ Cardinality(R) < 2 * c.k
       \/ Cardinality(R) - Cardinality(AtD(c, R, Min({D(c, i) : i \in R}))) < c.k
Demoted(c, O, P) == \A i \in O.a \cap P.x : D(c, i) >= O.nb /\ D(c, i) < P.nb /\ Cardinality(AtD(c, P.a, D(c, i))) = c.k
\* new nodes S were named, nothing else happened; one by one when checking the algorithm
AddOK(c, O, P, S) ==
  /\ P.a \subseteq O.a
  /\ P.x \subseteq O.x \cup O.a \cup S
  /\ P.nb >= O.nb
  /\ Demoted(c, O, P)
  /\ \A i \in (O.a \cup O.x \cup S) \ (P.a \cup P.x) :
       \/ /\ i \in S \ (O.a \cup O.x) /\ D(c, i) < P.nb /\ Cardinality(AtD(c, P.x, D(c, i))) >= 2 * c.k
       \/ /\ i \in O.a \cup O.x /\ D(c, i) >= O.nb /\ D(c, i) < P.nb
          /\ \/ i \in O.a /\ Cardinality(AtD(c, P.a, D(c, i))) = c.k /\ Cardinality(AtD(c, P.x, D(c, i))) >= c.k
             \/ i \in O.x /\ Cardinality(AtD(c, P.x, D(c, i))) >= 2 * c.k
RemoveOK(c, O, P, id) == P.a = O.a \ {id} /\ P.x = O.x \ {id} /\ P.nb <= O.nb
HeardOK(c, O, P, id) ==
  /\ P.nb = O.nb
  /\ IF id \in O.x /\ (D(c, id) >= O.nb \/ Cardinality(AtD(c, O.a, D(c, id))) < c.k)
     THEN P.a = O.a \cup {id} /\ P.x = O.x \ {id}
     ELSE P.a = O.a /\ P.x = O.x
\* which waiting nodes are surely looked at in a tick
Sure(c, O) == O.a \cup InRoot(c, O, O.x) \cup
   {i \in O.x : D(c, i) < O.nb /\ Cardinality(AtD(c, O.x, D(c, i))) <= 2 * c.k - Cardinality(AtD(c, O.a, D(c, i)))}
\* pings and deletions of a tick
TickOK(c, O, P, s, pings) ==
  LET dead == (O.a \cup O.x) \ (P.a \cup P.x) IN
  /\ P.nb = O.nb /\ P.a = O.a \ dead /\ P.x = O.x \ dead
  /\ pings \subseteq O.a \cup O.x
  /\ \A i \in O.a \cup O.x :
       IF s[i].ex /\ i \in Sure(c, O)
       THEN (i \in dead \/ (i \in pings <=> (s[i].n + 1) % c.pi = 0)) /\ (i \in dead <=> s[i].n + 1 >= c.pt)
       ELSE (i \in dead => s[i].n + 1 >= c.pt)
SilenceAfterTick(c, O, P, s) ==
  [i \in P.a \cup P.x |-> [n |-> Min({s[i].n + 1, c.pt}), ex |-> s[i].ex /\ i \in Sure(c, O)]]
SilenceAfter(c, P, s, heard) ==
  [i \in P.a \cup P.x |-> IF i = heard THEN [n |-> 0, ex |-> TRUE]
                          ELSE IF i \in DOMAIN s THEN s[i] ELSE [n |-> c.pi - 1, ex |-> TRUE]]

\* ---- routing: cb[i][j] = common leading bits of two ids (256: the same id) ------------------
\* a: active nodes, con: connected nodes of node me; where a message for key may go next
NextHops(cb, me, a, con, key, last) ==
  IF key = me THEN {} ELSE IF key \in con THEN {key} ELSE
  LET near == {x \in a : cb[me][x] = cb[me][key]}
      deep == IF last = 0 THEN 0 ELSE Max({cb[me][key], cb[me][last]})
      fine == IF last = 0 THEN {} ELSE {x \in a : cb[me][x] > deep}
  IN IF near # {} THEN near ELSE fine
\* a message to the closest node also tries the finer places, as long as there is an even finer one in the last bucket (nb others)
FinerLeft(cb, me, a, nb, key, last) ==
  last # 0 /\ key # me /\ LET deep == Max({cb[me][key], cb[me][last]})
                 finest == Max({deep} \cup {cb[me][x] : x \in {y \in a : cb[me][y] >= nb}})
             IN \E x \in a : cb[me][x] > deep /\ cb[me][x] < finest
\* nobody closer is known: the way may end here
MayEnd(cb, me, a, con, key) == key = me \/ (key \notin con /\ \A x \in a : cb[me][x] # cb[me][key])
=============================================================================
