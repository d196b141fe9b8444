------------------------------- MODULE DhtNode ------------------------------
(* One node of the DHT storage: which realms it holds, what it stores of    *)
(* each, and how every message changes this.                                *)
(*   c.realms[r] = [max, root]   c.accept = sequence of accepted realms     *)
(*   c.flos[id]  = [realm, depth, parent, vers]  (see RealmStore)           *)
(*   st = [held: realm -> entries, sys: realms added by the system]         *)
EXTENDS RealmStore

CR(c, r)       == [max |-> c.realms[r].max, root |-> c.realms[r].root, flos |-> c.flos]
ToSet(s)       == {s[i] : i \in 1..Len(s)}
Accepted(c, st, r) == LET l == ToSet(c.accept) \cup st.sys IN l = {} \/ r \in l
RealmOf(c, id) == c.flos[id].realm
Empty == [x \in {} |-> 0]
InitNode == [held |-> Empty, sys |-> {}]
Holds(st, r, id) == r \in DOMAIN st.held /\ id \in DOMAIN st.held[r]

\* a realm becomes held by its realm Flo, if it is accepted; Flos of other unknown realms are not kept
StoreIn(c, st, id, v) ==
  LET r == RealmOf(c, id) IN
  IF r \in DOMAIN st.held
  THEN {[st EXCEPT !.held = With(@, r, e)] : e \in Evictions(CR(c, r), Stored(CR(c, r), st.held[r], id, v))}
  ELSE IF id = c.realms[r].root /\ Accepted(c, st, r)
  THEN {[st EXCEPT !.held = With(@, r, [x \in {id} |-> [v |-> v, c |-> {}]])]}
  ELSE {st}

AttachIn(c, st, r, p, X) ==
  IF r \in DOMAIN st.held
  THEN {[st EXCEPT !.held = With(@, r, e)] : e \in Evictions(CR(c, r), Attach(CR(c, r), st.held[r], p, X))}
  ELSE {st}

ValueIn(c, st, o) == UNION {AttachIn(c, s, RealmOf(c, o.id), o.id, ToSet(o.c)) : s \in StoreIn(c, st, o.id, o.v)}
RECURSIVE FlosIn(_, _, _)
FlosIn(c, sts, l) == IF l = <<>> THEN sts ELSE FlosIn(c, UNION {ValueIn(c, s, Head(l)) : s \in sts}, Tail(l))

StateOps == {"store", "cstore", "value", "flos", "cuck", "sys", "restart"}
OtherOps == {"read", "rcuck", "cread", "ccuck", "dcuck", "dmissing", "nreqRealms", "nrealms", "nreqMetas", "nmetas", "nreqFlos",
             "nodes", "junk", "sync", "prop", "realms", "minute", "second"}

\* All states the node may be in after handling message o.
Posts(c, st, o) ==
  CASE o.op \in {"store", "cstore"} -> StoreIn(c, st, o.id, o.v)
    [] o.op = "value"   -> ValueIn(c, st, o)
    [] o.op = "flos"    -> FlosIn(c, {st}, o.l)
    [] o.op = "cuck"    -> AttachIn(c, st, o.r, o.id, {o.x})
    [] o.op = "sys"     -> {[st EXCEPT !.sys = @ \cup {o.r}]}
    [] o.op = "restart" -> {[st EXCEPT !.sys = {}]}
    [] OTHER            -> {st}

\* What a node which gets the list l of [id, ver, n] of realm r asks for: missing, older, or with fewer attachments.
Needed(c, st, r, l) ==
  {l[i].id : i \in {j \in 1..Len(l) : LET m == l[j] IN
      ~Holds(st, r, m.id) \/ Ver(c, m.id, st.held[r][m.id].v) < m.ver \/ Cardinality(st.held[r][m.id].c) < m.n}}
=============================================================================
