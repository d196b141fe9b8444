---------------------------- MODULE TraceDhtNode ----------------------------
(* Recorded histories of a real DHT-storage node, checked step by step      *)
(* against DhtNode. The state before a step is the one observed before it;  *)
(* $PROP selects which property a step is judged by, so that a defect is    *)
(* attributed to the property it breaks.                                    *)
EXTENDS DhtNode, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, k, st
vars == <<t, k, st>>
c == Traces[t].cfg
S == Traces[t].steps
Ids == 1..Len(c.flos)
Rs == 1..Len(c.realms)

\* ---- what was observed --------------------------------------------------------------------
Entry(f) == [v |-> IF f.v < 0 THEN 0 ELSE f.v, c |-> ToSet(f.c) \ {0}]
Ents(h) == LET I == {i \in 1..Len(h.flos) : h.flos[i].id # 0}
           IN [id \in {h.flos[i].id : i \in I} |-> Entry(h.flos[CHOOSE i \in I : h.flos[i].id = id])]
Obs(p) == LET I == {i \in 1..Len(p) : p[i].r # 0}
          IN [r \in {p[i].r : i \in I} |-> Ents(p[CHOOSE i \in I : p[i].r = r])]
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Both(f, g) == DOMAIN f \cap DOMAIN g

o == S[k+1]
obs == Obs(o.post)
sys == (CHOOSE p \in Posts(c, st, o) : TRUE).sys
HoldsObs(r, id) == r \in DOMAIN obs /\ id \in DOMAIN obs[r]
Outs(kind) == {i \in 1..Len(o.outs) : o.outs[i].k = kind}
\* all (Flo, attachments) pairs which this node hands out of its storage in this step
Given == UNION {
   {o.outs[i].fc : i \in Outs("value") \cup Outs("dvalue")},
   UNION {ToSet(o.outs[i].l) : i \in Outs("flos")} }
Metas == UNION {{[r |-> o.outs[i].r, m |-> o.outs[i].l[j]] : j \in 1..Len(o.outs[i].l)} : i \in Outs("metas")}

\* ---- C01: space, eviction of the furthest, refusal ------------------------------------------
Within(p) == \A r \in Both(p.held, obs) : DOMAIN p.held[r] = DOMAIN obs[r]
\* how many there are of each distance, the furthest first
Near(e) == LET D == SetToSortSeq({DepthOf(c, id) : id \in DOMAIN e}, <)
           IN [i \in DOMAIN D |-> Cardinality({id \in DOMAIN e : DepthOf(c, id) = D[i]})]
C01 == /\ \E p \in Posts(c, st, o) : Within(p)
       /\ \A i \in 1..Len(o.post) : LET h == o.post[i] IN h.r # 0 =>
            /\ h.size = Total(CR(c, h.r), Ents(h))
            /\ (h.size <= c.realms[h.r].max \/ DOMAIN Ents(h) = {c.realms[h.r].root})
            /\ c.realms[h.r].root \in DOMAIN Ents(h)
            /\ h.n = Len(h.flos) /\ h.near = Near(Ents(h))

\* ---- C02: versions ----------------------------------------------------------------------------
Versions(p) == \A r \in Both(p.held, obs) : \A id \in Both(p.held[r], obs[r]) : obs[r][id].v = p.held[r][id].v
Offered == CASE o.op \in {"store", "cstore", "value"} -> {<<o.id, o.v>>}
             [] o.op = "flos" -> {<<o.l[i].id, o.l[i].v>> : i \in 1..Len(o.l)}
             [] OTHER -> {}
C02 == /\ \A i \in 1..Len(o.post) : \A j \in 1..Len(o.post[i].flos) : o.post[i].flos[j].id # 0 => o.post[i].flos[j].v >= 0
       /\ \E p \in Posts(c, st, o) : Versions(p)
       \* passed on as new: exactly what was offered, and only if not held or newer
       /\ \A i \in Outs("store") : LET m == o.outs[i] r == RealmOf(c, m.id) IN
            /\ m.id # 0 /\ <<m.id, m.v>> \in Offered
            /\ ~Holds(st, r, m.id) \/ Ver(c, m.id, st.held[r][m.id].v) < Ver(c, m.id, m.v)
       \* what is returned or announced is what is held
       /\ \A g \in Given : /\ g.id # 0 /\ g.v >= 0
                           /\ IF HoldsObs(RealmOf(c, g.id), g.id) THEN obs[RealmOf(c, g.id)][g.id].v = g.v
                              ELSE o.op = "value" /\ g.id = o.id /\ g.v = o.v
       /\ \A m \in Metas : m.m.id # 0 /\ HoldsObs(m.r, m.m.id) /\ Ver(c, m.m.id, obs[m.r][m.m.id].v) = m.m.ver
       \* and what is held is returned to who asks for it
       /\ o.op = "read" /\ Holds(st, RealmOf(c, o.id), o.id) => \E i \in Outs("value") : o.outs[i].fc.id = o.id
       \* asked for in the network otherwise, and an answer is told
       /\ LET asked == o.op = "read" /\ ~Holds(st, RealmOf(c, o.id), o.id) IN
             /\ Cardinality(Outs("read")) = (IF asked THEN 1 ELSE 0)
             /\ asked => \A i \in Outs("read") : o.outs[i].key = o.id /\ o.outs[i].r = RealmOf(c, o.id) /\ o.outs[i].to = -2
       /\ o.op = "value" => Cardinality(Outs("value")) = 1 /\ \A i \in Outs("value") : o.outs[i].fc.id = o.id
       /\ Cardinality(Outs("missing")) = (IF o.op = "dmissing" THEN 1 ELSE 0) /\ \A i \in Outs("missing") : o.outs[i].id = o.id
       /\ Outs("dmissing") = {}
       \* what is newly stored goes on to its place, once
       /\ o.op \in {"store", "cstore"} =>
             LET r == RealmOf(c, o.id) new == HoldsObs(r, o.id) /\ obs[r][o.id].v = o.v /\ (Holds(st, r, o.id) => Ver(c, o.id, st.held[r][o.id].v) < Ver(c, o.id, o.v)) IN
             /\ Cardinality(Outs("store")) <= 1 /\ (new => Outs("store") # {})
             /\ \A i \in Outs("store") : o.outs[i].key = o.id
       /\ o.op = "cread" /\ Holds(st, o.r, o.id) => \E i \in Outs("dvalue") : o.outs[i].fc.id = o.id /\ o.outs[i].to = o.from
       /\ o.op = "nreqMetas" /\ o.r \in DOMAIN st.held =>
             DOMAIN st.held[o.r] = {m.m.id : m \in {x \in Metas : x.r = o.r}}
       /\ o.op = "nreqFlos" => {g.id : g \in Given} = {id \in ToSet(o.ids) : Holds(st, o.r, id)}

\* ---- C03: attachments -------------------------------------------------------------------------
Attachments(p) == \A r \in Both(p.held, obs) : \A id \in Both(p.held[r], obs[r]) : obs[r][id].c = p.held[r][id].c
C03 == /\ \A i \in 1..Len(o.post) : \A j \in 1..Len(o.post[i].flos) : NoDup(o.post[i].flos[j].c) /\ 0 \notin ToSet(o.post[i].flos[j].c)
       /\ \E p \in Posts(c, st, o) : Attachments(p)
       /\ \A g \in Given : g.id # 0 /\ NoDup(g.c)
             /\ IF HoldsObs(RealmOf(c, g.id), g.id) THEN obs[RealmOf(c, g.id)][g.id].c = ToSet(g.c)
                ELSE o.op = "value" /\ ToSet(g.c) = ToSet(o.c)
       /\ \A m \in Metas : HoldsObs(m.r, m.m.id) => Cardinality(obs[m.r][m.m.id].c) = m.m.n
       /\ \A i \in Outs("cuckoos") \cup Outs("dcuckoos") : LET m == o.outs[i] IN
             /\ NoDup(m.c)
             /\ IF o.op = "dcuck" THEN m.id = o.id /\ ToSet(m.c) = ToSet(o.c)
                ELSE HoldsObs(RealmOf(c, o.id), o.id) /\ ToSet(m.c) = obs[RealmOf(c, o.id)][o.id].c /\ m.id = o.id
       /\ o.op = "rcuck" /\ Holds(st, RealmOf(c, o.id), o.id) => \E i \in Outs("cuckoos") : o.outs[i].id = o.id
       \* the network may know of more; what it answers is told
       /\ Cardinality(Outs("getCuckoos")) = (IF o.op = "rcuck" THEN 1 ELSE 0)
       /\ \A i \in Outs("getCuckoos") : o.outs[i].key = o.id /\ o.outs[i].r = RealmOf(c, o.id) /\ o.outs[i].to = -2
       /\ o.op = "dcuck" => Cardinality(Outs("cuckoos")) = 1
       /\ o.op = "ccuck" /\ Holds(st, o.r, o.id) => \E i \in Outs("dcuckoos") : o.outs[i].id = o.id /\ o.outs[i].to = o.from
       \* a stored Flo is made known to the place of its parent
       /\ \A i \in Outs("storeCuckoo") : /\ o.op \in {"store", "cstore"} /\ o.outs[i].x = o.id
                                         /\ o.outs[i].key = c.flos[o.id].parent /\ o.outs[i].r = RealmOf(c, o.id)
       /\ o.op \in {"store", "cstore"} /\ c.flos[o.id].parent # 0 /\ HoldsObs(RealmOf(c, o.id), o.id) => Outs("storeCuckoo") # {}

\* ---- C04: the disk holds the same ---------------------------------------------------------------
C04 == /\ Obs(o.disk) = obs
       /\ o.op = "restart" => obs = st.held
       /\ \A i \in 1..Len(o.disk) : \E j \in 1..Len(o.post) : o.post[j].r = o.disk[i].r /\ o.post[j].size = o.disk[i].size

\* ---- C05: what synchronisation asks for and answers --------------------------------------------
C05 == /\ o.op = "nmetas" => LET need == IF o.r \in DOMAIN st.held THEN Needed(c, st, o.r, o.l) ELSE {} IN
             /\ UNION {ToSet(o.outs[i].ids) : i \in {j \in Outs("reqFlos") : o.outs[j].r = o.r /\ o.outs[j].to = o.from}} = need
             /\ need = {} => Outs("reqFlos") = {}
       /\ o.op = "nreqRealms" /\ DOMAIN st.held # {} => \E i \in Outs("realms") : o.outs[i].to = o.from /\ ToSet(o.outs[i].rs) = DOMAIN st.held
       /\ o.op = "nrealms" => LET acc == {r \in ToSet(o.rs) : Accepted(c, st, r)} IN
             /\ {o.outs[i].r : i \in {j \in Outs("reqMetas") : o.outs[j].to = o.from}} = acc
             /\ \A r \in acc \ DOMAIN st.held : \E i \in Outs("reqFlos") : o.outs[i].to = o.from /\ o.outs[i].r = r /\ c.realms[r].root \in ToSet(o.outs[i].ids)
       /\ o.op = "nreqMetas" /\ o.r \in DOMAIN st.held => \E i \in Outs("metas") : o.outs[i].to = o.from /\ o.outs[i].r = o.r
       /\ o.op = "nreqFlos" /\ (\E id \in ToSet(o.ids) : Holds(st, o.r, id)) => \E i \in Outs("flos") : o.outs[i].to = o.from
       /\ o.op \in {"sync", "minute"} => \E i \in Outs("reqRealms") : o.outs[i].to = -1
       /\ o.op = "prop" /\ DOMAIN st.held # {} => \E i \in Outs("realms") : o.outs[i].to = -1 /\ ToSet(o.outs[i].rs) = DOMAIN st.held
       /\ o.op \notin {"nrealms", "nmetas"} => Outs("reqFlos") = {} /\ Outs("reqMetas") = {}

\* ---- C06: realms ----------------------------------------------------------------------------------
C06 == /\ \A i \in 1..Len(o.post) : o.post[i].r # 0 /\ \A j \in 1..Len(o.post[i].flos) :
             LET id == o.post[i].flos[j].id IN id # 0 /\ RealmOf(c, id) = o.post[i].r
       /\ \E p \in Posts(c, st, o) : DOMAIN p.held = DOMAIN obs
       /\ \A r \in DOMAIN obs \ DOMAIN st.held : Accepted(c, [held |-> st.held, sys |-> sys], r)
       /\ \A i \in Outs("reqFlos") \cup Outs("reqMetas") : Accepted(c, [held |-> st.held, sys |-> sys], o.outs[i].r)
              \/ (o.op = "nmetas" /\ o.outs[i].r \in DOMAIN st.held)
       /\ \A i \in Outs("realms") \cup Outs("realmIDs") : NoDup(o.outs[i].rs) /\ ToSet(o.outs[i].rs) = DOMAIN st.held
       /\ o.op = "realms" => Cardinality(Outs("realmIDs")) = 1
       /\ \A i \in Outs("metas") : o.outs[i].r \in DOMAIN st.held
       /\ o.op \in {"nreqFlos", "cread"} => \A g \in Given : g.id # 0 /\ RealmOf(c, g.id) = o.r

Judge == CASE PROP = "C01" -> C01 [] PROP = "C02" -> C02 [] PROP = "C03" -> C03
           [] PROP = "C04" -> C04 [] PROP = "C05" -> C05 [] PROP = "C06" -> C06
Init == t \in 1..Len(Traces) /\ k = 0 /\ st = InitNode
Next == \/ /\ k < Len(S) /\ o.op \in StateOps \cup OtherOps
           /\ Judge = TRUE \* evaluated as one formula, not split up as an action
           /\ k' = k + 1 /\ t' = t /\ st' = [held |-> obs, sys |-> sys]
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
