----------------------------- MODULE TraceGossip ----------------------------
(* Recorded histories of one real gossip node, judged by $PROP:             *)
(* C10 what it holds and reports, C11 what it sends, C04 what is on disk.   *)
EXTENDS Gossip, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
\* asked: events asked for since the neighbours were last asked for theirs, and not come; idle: ticks in a row without asking
VARIABLES t, k, held, offered, nb, asked, idle
vars == <<t, k, held, offered, nb, asked, idle>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
obs == ToSet(o.held)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
\* what is offered to the store in this step: at a start the own node info
In == CASE o.op = "add" -> <<o.e>> [] o.op = "events" -> o.l [] o.op \in {"start", "restart"} -> o.own [] OTHER -> <<>>
offered2 == offered \cup ToSet(In)
Sent(kind) == {i \in 1..Len(o.outs) : o.outs[i].k = kind}
SentTo(kind, n) == {i \in Sent(kind) : o.outs[i].t = n}
IdsTo(kind, n) == UNION {ToSet(o.outs[i].l) : i \in SentTo(kind, n)}
Ops == {"start", "restart", "add", "events", "known", "req", "reqIds", "nodes", "tick", "junk"}
C10 == /\ 0 \notin obs /\ NoDup(o.held)
       /\ \A i \in 1..2 : Cardinality(InCat(c, obs, i)) <= c.max[i]
       /\ IsNewest(c, offered2, obs)
       /\ o.op \notin {"start", "restart"} =>
            \E r \in AddAll(c, {<<held, <<>>>>}, In) : r[1] = obs /\ (Len(r[2]) = Len(o.new)) /\ ToSet(r[2]) = ToSet(o.new)
       \* the order of arrival, repetitions and grouping do not matter
       /\ \A i \in 1..Len(o.perm) : ToSet(o.perm[i]) = obs
C11 == /\ \A i \in 1..Len(o.outs) : o.outs[i].k \in {"known", "req", "reqIds", "events"}
       /\ o.op = "known" => /\ \A i \in Sent("req") : o.outs[i].t = o.f
                            /\ IdsTo("req", o.f) = (ToSet(o.l) \ held) \ asked /\ Cardinality(Sent("req")) <= 1
                            /\ Sent("events") = {} /\ Sent("known") = {}
       /\ o.op = "req" => /\ \A i \in 1..Len(o.outs) : o.outs[i].t = o.f /\ o.outs[i].k = "events" /\ NoDup(o.outs[i].l)
                          /\ IdsTo("events", o.f) = ToSet(o.l) \cap held /\ Cardinality(Sent("events")) <= 1
       /\ o.op = "reqIds" => /\ \A i \in 1..Len(o.outs) : o.outs[i].t = o.f /\ o.outs[i].k = "known"
                             /\ IdsTo("known", o.f) = held
       /\ o.op \in {"add", "events"} =>
            LET src == IF o.op = "events" THEN o.f ELSE 1 IN
            /\ Sent("events") = {} /\ Sent("req") = {}
            /\ \A i \in Sent("known") : o.outs[i].t \in nb \ {src, 1} /\ NoDup(o.outs[i].l)
            /\ \A n \in nb \ {src, 1} : IdsTo("known", n) = {e \in ToSet(o.new) : c.events[e].src # n}
            /\ \A i, j \in Sent("known") : i # j /\ o.outs[i].t = o.outs[j].t => ToSet(o.outs[i].l) \cap ToSet(o.outs[j].l) = {}
       /\ o.op = "nodes" => /\ {o.outs[i].t : i \in Sent("reqIds")} = ToSet(o.l) \ (nb \cup {1})
                            /\ \A i \in 1..Len(o.outs) : o.outs[i].k = "reqIds"
       /\ o.op = "tick" => \A i \in 1..Len(o.outs) : o.outs[i].k = "reqIds" /\ o.outs[i].t \in nb /\ Cardinality(SentTo("reqIds", o.outs[i].t)) = 1
       \* all the neighbours are asked, or none: and this at most twice in a row
       /\ o.op = "tick" => IF o.outs = <<>> THEN nb \ {1} = {} \/ idle < 2 ELSE \A n \in nb \ {1} : SentTo("reqIds", n) # {}
       /\ o.op = "junk" => o.outs = <<>>
C04 == /\ ToSet(o.disk) = obs /\ 0 \notin ToSet(o.disk)
       /\ o.op = "restart" => \E r \in AddAll(c, {<<held, <<>>>>}, o.own) : r[1] = obs
Judge == CASE PROP = "C10" -> C10 [] PROP = "C11" -> C11 [] PROP = "C04" -> C04
Init == t \in 1..Len(Traces) /\ k = 0 /\ held = {} /\ offered = {} /\ nb = {} /\ asked = {} /\ idle = 0
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE
           /\ k' = k + 1 /\ t' = t /\ held' = obs /\ offered' = offered2
           /\ nb' = CASE o.op = "nodes" -> ToSet(o.l) [] o.op \in {"start", "restart"} -> {} [] OTHER -> nb
           /\ asked' = CASE o.op \in {"start", "restart"} -> {}
                        [] o.op = "tick" -> IF o.outs = <<>> THEN asked ELSE {}
                        [] o.op = "events" -> asked \ ToSet(o.l)
                        [] OTHER -> asked \cup UNION {ToSet(o.outs[i].l) : i \in Sent("req")}
           /\ idle' = IF o.op = "tick" THEN (IF o.outs = <<>> THEN idle + 1 ELSE 0) ELSE IF o.op \in {"start", "restart"} THEN 0 ELSE idle
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
