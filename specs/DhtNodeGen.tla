----------------------------- MODULE DhtNodeGen -----------------------------
(* Random behaviours of DhtNode (tlc -simulate) over the shapes given in    *)
(* $SHAPES, printed to be replayed in the real code; while generating, the  *)
(* invariants of the node are checked.                                      *)
EXTENDS DhtNode, Json, IOUtils, SequencesExt
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
CONSTANT N
VARIABLES sh, st, hist, done
vars == <<sh, st, hist, done>>
c == Shapes[sh]
Ids == 1..Len(c.flos)
Rs == 1..Len(c.realms)
R(S) == RandomElement(S)
HeldIds == UNION {DOMAIN st.held[r] : r \in DOMAIN st.held}
AnyId == IF HeldIds # {} /\ R(1..3) = 1 THEN R(HeldIds) ELSE R(Ids)
Content(id) == R(0..(Len(c.flos[id].vers) - 1))
Kids(id) == {x \in Ids : c.flos[x].parent = id}
SomeKids(id) == SetToSeq(IF R(1..2) = 1 THEN R(SUBSET Kids(id)) ELSE R(SUBSET R({S \in SUBSET Ids : Cardinality(S) <= 3})))
SomeIds == SetToSeq(R({S \in SUBSET Ids : Cardinality(S) \in 1..4}))
Fc(id) == [id |-> id, v |-> Content(id), c |-> SomeKids(id)]
Meta(id) == [id |-> id, ver |-> R(0..3), n |-> R(0..3)]
Rel(id) == IF R(1..6) = 1 THEN R(Rs) ELSE RealmOf(c, id)
InRealm(r) == {x \in Ids : RealmOf(c, x) = r}
Mk(k) == LET id == AnyId r == R(Rs) IN
  CASE k \in {"store", "cstore"} -> [op |-> k, id |-> id, v |-> Content(id)]
    [] k = "value" -> [op |-> k, id |-> id, v |-> Content(id), c |-> SomeKids(id)]
    [] k = "flos" -> LET s == SomeIds IN [op |-> k, l |-> [i \in 1..Len(s) |-> Fc(s[i])]]
    [] k = "cuck" -> [op |-> k, id |-> id, r |-> Rel(id), x |-> AnyId]
    [] k \in {"read", "rcuck", "dmissing"} -> [op |-> k, id |-> id]
    [] k \in {"cread", "ccuck"} -> [op |-> k, id |-> id, r |-> Rel(id)]
    [] k = "dcuck" -> [op |-> k, id |-> id, c |-> SomeKids(id)]
    [] k = "nrealms" -> [op |-> k, rs |-> SetToSeq(R(SUBSET Rs))]
    [] k \in {"nreqMetas", "sys"} -> [op |-> k, r |-> r]
    [] k = "nmetas" -> LET s == SomeIds IN [op |-> k, r |-> r, l |-> [i \in 1..Len(s) |-> Meta(s[i])]]
    [] k = "nreqFlos" -> [op |-> k, r |-> r, ids |-> SomeIds]
    [] OTHER -> [op |-> k]
\* the weight of each kind of message
W == <<"store", "store", "store", "store", "cstore", "cstore", "cstore", "value", "value", "value", "flos", "flos", "flos", "cuck", "cuck", "cuck",
       "read", "rcuck", "cread", "ccuck", "dcuck", "dmissing", "nreqRealms", "nrealms", "nrealms", "nreqMetas", "nreqMetas", "nmetas", "nmetas", "nreqFlos", "nreqFlos",
       "nodes", "junk", "sync", "prop", "realms", "minute", "second", "restart", "sys">>
\* a behaviour starts with one of the realms, most of the time
Start == [op |-> "store", id |-> c.realms[R(Rs)].root, v |-> 0]
Init == sh \in 1..Len(Shapes) /\ st = InitNode /\ hist = <<>> /\ done = FALSE
Step == /\ Len(hist) < N
        /\ \E o \in {IF hist = <<>> /\ R(1..8) > 1 THEN Start ELSE Mk(W[R(1..Len(W))])} :
             /\ st' \in Posts(c, st, o)
             /\ hist' = Append(hist, o)
        /\ UNCHANGED <<sh, done>>
Finish == /\ Len(hist) = N /\ ~done /\ done' = TRUE
          /\ PrintT(ToJsonObject([shape |-> c.shape, ops |-> hist]))
          /\ UNCHANGED <<sh, st, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Fits == \A r \in DOMAIN st.held : Total(CR(c, r), st.held[r]) <= c.realms[r].max \/ DOMAIN st.held[r] = {c.realms[r].root}
RootHeld == \A r \in DOMAIN st.held : c.realms[r].root \in DOMAIN st.held[r]
OwnRealm == \A r \in DOMAIN st.held : \A id \in DOMAIN st.held[r] : RealmOf(c, id) = r
=============================================================================
