---------------------------- MODULE TraceDhtSync ----------------------------
(* Recorded histories of several real DHT-storage nodes: nothing is         *)
(* invented at any moment, and after rounds without losses all converged    *)
(* and are silent.                                                          *)
EXTENDS DhtSync, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, ns, g, contents, atts
vars == <<t, k, ns, g, contents, atts>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Entry(f) == [v |-> f.v, c |-> ToSet(f.c)]
Ents(h) == [id \in {h.flos[i].id : i \in 1..Len(h.flos)} |-> Entry(h.flos[CHOOSE i \in 1..Len(h.flos) : h.flos[i].id = id])]
Obs(p) == [InitNode EXCEPT !.held = [r \in {p[i].r : i \in 1..Len(p)} |-> Ents(p[CHOOSE i \in 1..Len(p) : p[i].r = r])]]
Known(p) == \A i \in 1..Len(p) : p[i].r # 0 /\ \A j \in 1..Len(p[i].flos) : LET f == p[i].flos[j] IN
               f.id # 0 /\ f.v >= 0 /\ 0 \notin ToSet(f.c) /\ Cardinality(ToSet(f.c)) = Len(f.c)
obs == [i \in 1..Len(o.post) |-> Obs(o.post[i])]
contents2 == IF o.op = "put" THEN contents \cup {<<o.id, o.v>>} ELSE contents
atts2 == IF o.op = "put" THEN atts \cup {<<o.id, x>> : x \in ToSet(o.c)} ELSE atts
Init == t \in 1..Len(Traces) /\ k = 0 /\ ns = [i \in 1..Traces[t].cfg.nodes |-> InitNode] /\ g = ns /\ contents = {} /\ atts = {}
Judge == /\ o.op \in {"put", "sync", "prop", "deliver", "lose", "dup", "skip", "round"}
         /\ \A i \in 1..Len(o.post) : Known(o.post[i])
         /\ ~Invented(c, obs, contents2, atts2)
         \* rounds go on until one transfers nothing; this has to happen, and then all have converged
         /\ o.op = "round" /\ k + 1 = Len(S) => o.flos = 0 /\ Converged(c, g, obs)
Next == \/ /\ k < Len(S) /\ Judge = TRUE
           /\ k' = k + 1 /\ t' = t /\ ns' = obs /\ contents' = contents2 /\ atts' = atts2
           /\ g' = IF o.op = "round" THEN g ELSE obs
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
