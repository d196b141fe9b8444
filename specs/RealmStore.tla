----------------------------- MODULE RealmStore -----------------------------
(* What one node stores of one realm: entries with a version and a set of   *)
(* attachments (cuckoos), a bounded space, and eviction of the furthest.    *)
(*                                                                          *)
(* All operators take the configuration  c  as a parameter, so that the     *)
(* same text is used by the exhaustive model (one constant configuration)   *)
(* and by the trace specification (one configuration per recorded trace).   *)
(*   c.max    space of the realm                                            *)
(*   c.root   the realm's own Flo                                           *)
(*   c.flos   sequence: id -> [depth, parent (0: none), vers]               *)
(*            vers[v+1] = [ver: version number, third: size > max/3, sz: seq *)
(*            of the entry's size with 0, 1, 2, ... attachments]            *)
(*   Two contents of a Flo may carry the same version number.              *)
(* ents: [held ids -> [v: content, c: set of attachments]]                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

SizeE(c, id, e) == c.flos[id].vers[e.v + 1].sz[Cardinality(e.c) + 1]
Total(c, ents)  == FoldSet(LAMBDA id, acc : acc + SizeE(c, id, ents[id]), 0, DOMAIN ents)
Ver(c, id, v)   == c.flos[id].vers[v + 1].ver
DepthOf(c, id)  == c.flos[id].depth
Without(f, S)   == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, y)   == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

(* A set of attachments is recorded with a held parent; not with an unknown one. *)
Attach(c, ents, p, S) ==
  IF p \in DOMAIN ents THEN With(ents, p, [v |-> ents[p].v, c |-> ents[p].c \cup S]) ELSE ents

(* What entries strictly further away than id occupy - the realm's own Flo cannot make room. *)
Further(c, ents, id) ==
  LET F == {x \in DOMAIN ents \ {c.root} : DepthOf(c, x) < DepthOf(c, id)}
  IN FoldSet(LAMBDA x, acc : acc + SizeE(c, x, ents[x]), 0, F)

Accepts(c, ents, id, v) ==
  LET s == SizeE(c, id, [v |-> v, c |-> {}])
  IN Total(c, ents) + s <= c.max \/ s <= Further(c, ents, id)

(* The entries after storing version v of id, before any eviction. *)
Stored(c, ents, id, v) ==
  IF c.flos[id].vers[v + 1].third THEN ents
  ELSE LET e1 == IF c.flos[id].parent = 0 THEN ents ELSE Attach(c, ents, c.flos[id].parent, {id})
       IN IF id \in DOMAIN e1
          THEN IF Ver(c, id, e1[id].v) < Ver(c, id, v) THEN With(e1, id, [v |-> v, c |-> e1[id].c]) ELSE e1
          ELSE IF Accepts(c, e1, id, v) THEN With(e1, id, [v |-> v, c |-> {}]) ELSE e1

(* after = before without what has to be evicted: nothing if before fits; otherwise the furthest first, *)
(* never the root, and no more than needed.                                                             *)
Evicted(c, before, after) ==
  LET R == DOMAIN before \ DOMAIN after
      max == Max({DepthOf(c, x) : x \in R} \cup {0})
  IN /\ DOMAIN after \subseteq DOMAIN before
     /\ \A x \in DOMAIN after : after[x] = before[x]
     /\ c.root \notin R
     /\ Total(c, after) <= c.max \/ DOMAIN after \subseteq {c.root}
     /\ \A r \in R, k \in DOMAIN after \ {c.root} : DepthOf(c, r) <= DepthOf(c, k)
     /\ R # {} => \E r \in R : DepthOf(c, r) = max /\ Total(c, after) + SizeE(c, r, before[r]) > c.max

Evictions(c, before) == IF Total(c, before) <= c.max THEN {before} ELSE {Without(before, R) : R \in {S \in SUBSET (DOMAIN before \ {c.root}) : Evicted(c, before, Without(before, S))}}
=============================================================================
