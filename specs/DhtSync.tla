------------------------------ MODULE DhtSync -------------------------------
(* Several DHT-storage nodes (DhtNode) which synchronise with their         *)
(* neighbours. A message is [f: from, t: to, k: kind, ...].                 *)
EXTENDS DhtNode, SequencesExt

NumAtt(e) == Cardinality(e.c)
\* what a node reacts to a message with, to the sender of it
Replies(c, st, m) ==
  LET B(rec) == rec @@ [f |-> m.t, t |-> m.f] IN
  CASE m.k = "reqRealms" -> {B([k |-> "realms", rs |-> DOMAIN st.held])}
    [] m.k = "realms" -> UNION {{B([k |-> "reqMetas", r |-> r])} \cup
                                (IF r \in DOMAIN st.held THEN {} ELSE {B([k |-> "reqFlos", r |-> r, ids |-> {c.realms[r].root}])})
                                : r \in {x \in m.rs : Accepted(c, st, x)}}
    [] m.k = "reqMetas" -> IF m.r \in DOMAIN st.held
         THEN {B([k |-> "metas", r |-> m.r, l |-> {[id |-> id, ver |-> Ver(c, id, st.held[m.r][id].v), n |-> NumAtt(st.held[m.r][id])] : id \in DOMAIN st.held[m.r]}])} ELSE {}
    [] m.k = "metas" -> LET need == IF m.r \in DOMAIN st.held THEN Needed(c, st, m.r, SetToSeq(m.l)) ELSE {} IN
         IF need = {} THEN {} ELSE {B([k |-> "reqFlos", r |-> m.r, ids |-> need])}
    [] m.k = "reqFlos" -> LET have == {id \in m.ids : Holds(st, m.r, id)} IN
         IF m.r \notin DOMAIN st.held THEN {} ELSE {B([k |-> "flos", l |-> {[id |-> id, v |-> st.held[m.r][id].v, c |-> st.held[m.r][id].c] : id \in have}])}
    [] OTHER -> {}

\* the states a node can be in after a message: a batch of Flos may come in any order
RECURSIVE AnyOrder(_, _, _)
AnyOrder(c, sts, L) == IF L = {} THEN sts
   ELSE UNION {AnyOrder(c, UNION {UNION {AttachIn(c, s2, RealmOf(c, o.id), o.id, o.c) : s2 \in StoreIn(c, s, o.id, o.v)} : s \in sts}, L \ {o}) : o \in L}
After(c, st, m) == IF m.k = "flos" THEN AnyOrder(c, {st}, m.l) ELSE {st}

\* ---- the property ---------------------------------------------------------------------------
\* nodes: sequence of node states; g: initial ones (all that was ever stored somewhere)
HoldersOf(ns, r, id) == {i \in 1..Len(ns) : Holds(ns[i], r, id)}
AllHeld(ns) == UNION {UNION {{<<r, id>> : id \in DOMAIN ns[i].held[r]} : r \in DOMAIN ns[i].held} : i \in 1..Len(ns)}
MaxVer(c, ns, r, id) == Max({Ver(c, id, ns[i].held[r][id].v) : i \in HoldersOf(ns, r, id)})
MaxAtt(ns, r, id) == Max({NumAtt(ns[i].held[r][id]) : i \in HoldersOf(ns, r, id)})
Converged(c, g, ns) ==
  \A x \in AllHeld(g) \cup AllHeld(ns) : \A i \in 1..Len(ns) :
     LET r == x[1] id == x[2] IN
     /\ Holds(ns[i], r, id)
     /\ Ver(c, id, ns[i].held[r][id].v) = MaxVer(c, ns, r, id)
     /\ HoldersOf(g, r, id) # {} => /\ Ver(c, id, ns[i].held[r][id].v) >= MaxVer(c, g, r, id)
                                    /\ NumAtt(ns[i].held[r][id]) >= MaxAtt(g, r, id)
     /\ NumAtt(ns[i].held[r][id]) = MaxAtt(ns, r, id)
\* known: set of <<id, content>> and <<parent, attachment>> ever brought in from outside; a Flo attaches itself to its parent
Invented(c, ns, contents, atts) ==
  \E i \in 1..Len(ns) : \E r \in DOMAIN ns[i].held : \E id \in DOMAIN ns[i].held[r] :
     LET e == ns[i].held[r][id] IN
     \/ <<id, e.v>> \notin contents
     \/ \E x \in e.c : <<id, x>> \notin atts /\ ~(c.flos[x].parent = id /\ \E v \in 0..(Len(c.flos[x].vers) - 1) : <<x, v>> \in contents)
=============================================================================
