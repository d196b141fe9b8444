---------------------------- MODULE RealmStoreMC ----------------------------
(* Exhaustive model of one realm's storage, all histories over a few Flos.  *)
EXTENDS RealmStore, Json
CONSTANT CFG
VARIABLES ents, last
vars == <<ents, last>>

\* a: distances all different sizes; b: ties and a parent
cfgA == [max |-> 100, root |-> 1, flos |-> <<
   [depth |-> 0, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<20,25,30>>]>>],
   [depth |-> 0, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<10,15,20>>], [ver |-> 1, third |-> FALSE, sz |-> <<30,35,40>>]>>],
   [depth |-> 1, parent |-> 2, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<30,35,40>>], [ver |-> 1, third |-> TRUE, sz |-> <<50,55,60>>]>>],
   [depth |-> 2, parent |-> 2, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<30,35,40>>], [ver |-> 1, third |-> FALSE, sz |-> <<20,25,30>>]>>],
   [depth |-> 3, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<20,25,30>>], [ver |-> 1, third |-> FALSE, sz |-> <<30,35,40>>]>>] >>]
cfgB == [max |-> 90, root |-> 1, flos |-> <<
   [depth |-> 2, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<20,25,30,35>>]>>],
   [depth |-> 1, parent |-> 1, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<30,35,40,45>>]>>],
   [depth |-> 1, parent |-> 1, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<20,25,30,35>>], [ver |-> 1, third |-> FALSE, sz |-> <<30,35,40,45>>]>>],
   [depth |-> 1, parent |-> 2, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<25,30,35,40>>]>>],
   [depth |-> 2, parent |-> 2, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<25,30,35,40>>]>>],
   [depth |-> 3, parent |-> 0, vers |-> <<[ver |-> 0, third |-> FALSE, sz |-> <<30,35,40,45>>]>>] >>]
C == IF CFG = "A" THEN cfgA ELSE cfgB
Ids == 1..Len(C.flos)

Init == /\ ents = [x \in {C.root} |-> [v |-> 0, c |-> {}]]
        /\ last = [op |-> "init"]

Upsert(id, v) == /\ ents' \in Evictions(C, Stored(C, ents, id, v))
                 /\ last' = [op |-> "upsert", id |-> id, v |-> v]
AttachTo(p, x) == /\ p \in DOMAIN ents
                  /\ ents' \in Evictions(C, Attach(C, ents, p, {x}))
                  /\ last' = [op |-> "attach", id |-> p, x |-> x]
Next == \/ \E id \in Ids : \E v \in 0..(Len(C.flos[id].vers) - 1) : Upsert(id, v)
        \/ \E p \in {1, 2}, x \in {3, 4} : AttachTo(p, x)
Spec == Init /\ [][Next]_vars

View == ents
Fits == Total(C, ents) <= C.max
RootHeld == C.root \in DOMAIN ents
VersionsGrow == [][\A x \in DOMAIN ents \cap DOMAIN ents' : ents'[x].v >= ents[x].v]_vars
AttachmentsStay == [][\A x \in DOMAIN ents \cap DOMAIN ents' : ents[x].c \subseteq ents'[x].c]_vars

(* No cycling: while the same unchanging Flos (version 0) are offered again and again, a step that evicts     *)
(* something makes the occupancy of the distances larger, compared from the nearest distance outwards.       *)
Occ(e, d) == FoldSet(LAMBDA x, acc : acc + SizeE(C, x, e[x]), 0, {x \in DOMAIN e : DepthOf(C, x) = d})
LexLess(e, f) == \E d \in 0..4 : Occ(e, d) < Occ(f, d) /\ \A d2 \in (d+1)..4 : Occ(e, d2) = Occ(f, d2)
NoCycling == [][(last'.op = "upsert" /\ last'.id \notin DOMAIN ents /\ ents' # ents /\ C.flos[last'.id].parent = 0) => LexLess(ents, ents')]_vars
RefusalKeeps == [][(last'.op = "upsert" /\ last'.id \notin DOMAIN ents /\ C.flos[last'.id].parent = 0
                     /\ last'.id \notin DOMAIN ents') => ents' = ents]_vars
=============================================================================
