---------------------------- MODULE TraceKademlia ---------------------------
(* Recorded histories of one real DHT router, judged by $PROP:              *)
(* C07 the table, C08 pings and deletions, C09 what is sent where.          *)
EXTENDS Kademlia, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, k, O, s, con
vars == <<t, k, O, s, con>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
NoDup(q) == Cardinality(Els(q)) = Len(q)
Pick(kind) == SelectSeq(o.outs, LAMBDA x : x.k = kind)
Ups(kind) == SelectSeq(o.ups, LAMBDA x : x.k = kind)
Dst(kind) == {x.t : x \in Els(Pick(kind))}
Obs == [nb |-> Len(o.tab.b) - 1, a |-> Els(SubSeq(o.tab.all, 1, o.tab.act)), x |-> Els(SubSeq(o.tab.all, o.tab.act + 1, Len(o.tab.all)))]
Ops == {"conlist", "con", "disc", "avail", "pong", "ping", "idsReq", "ids", "nb", "junk", "closest", "direct", "upBcast", "upNb", "upClosest", "upDirect", "tick"}
From == {"pong", "ping", "idsReq", "ids", "nb", "junk", "closest", "direct"}
Named == CASE o.op \in {"conlist", "con", "disc", "avail", "ids"} -> (IF o.op = "con" THEN con \cup {o.f} ELSE Els(o.l)) \ {1} [] OTHER -> {}
\* the table between the additions and the answer of o.f
Mid(P) == IF o.op \in From /\ o.f \in P.a \ O.a THEN [P EXCEPT !.a = @ \ {o.f}, !.x = @ \cup {o.f}] ELSE P
C07 == LET P == Obs IN
  /\ NoDup(o.tab.all) /\ 1 \notin Els(o.tab.all) /\ 0 \notin Els(o.tab.all)
  /\ Shape(c, P)
  /\ UNION {Els(o.tab.b[i]) : i \in 1..Len(o.tab.b)} = P.a
  /\ \A i \in 1..Len(o.tab.b) : NoDup(o.tab.b[i]) /\ \A x \in Els(o.tab.b[i]) : IF i <= P.nb THEN c.depth[x] = i - 1 ELSE c.depth[x] >= P.nb
  /\ CASE o.op = "disc" -> /\ o.f \notin P.a \cup P.x
                           \* the others were named, then this one removed
                           /\ \/ AddOK(c, O, [P EXCEPT !.x = @ \cup ({o.f} \cap O.x), !.a = @ \cup ({o.f} \cap O.a)], Named \cup {o.f})
                              \/ P.a \cup P.x \subseteq O.a \cup O.x \cup Named /\ P.a \subseteq O.a
                           /\ o.f \notin O.a \cup O.x /\ Named \subseteq O.a \cup O.x => P.a = O.a /\ P.x = O.x
                           /\ Named \subseteq O.a \cup O.x => RemoveOK(c, O, P, o.f)
       [] o.op = "tick" -> P.nb = O.nb /\ P.a \subseteq O.a /\ P.x \subseteq O.x
                           /\ \A i \in Sure(c, O) : s[i].ex /\ (s[i].n + 1) % c.pi = 0 => i \in Dst("ping") \cup ((O.a \cup O.x) \ (P.a \cup P.x))
       [] o.op \in From -> AddOK(c, O, Mid(P), Named) /\ HeardOK(c, Mid(P), P, o.f)
       [] OTHER -> AddOK(c, O, P, Named)
C08 == LET P == Obs IN
  /\ IF o.op = "tick" THEN TickOK(c, O, P, s, Dst("ping")) /\ NoDup(Pick("ping")) ELSE Pick("ping") = <<>>
  /\ o.op \notin {"tick", "disc"} => \A i \in (O.a \cup O.x) \ (P.a \cup P.x) : P.nb > O.nb /\ c.depth[i] < P.nb /\ c.depth[i] >= O.nb
  /\ Pick("pong") = IF o.op = "ping" THEN <<[t |-> o.f, k |-> "pong"]>> ELSE <<>>
  /\ \A u \in Els(Ups("list")) : Els(u.l) = P.a /\ NoDup(u.l)
  /\ P.a \ O.a # {} => Ups("list") # <<>>
  /\ o.op # "tick" => Pick("idsReq") = <<>>
  /\ o.op = "tick" => Dst("idsReq") = P.a /\ NoDup(Pick("idsReq"))
  /\ IF o.op = "idsReq" THEN Len(Pick("ids")) = 1 /\ Pick("ids")[1].t = o.f /\ Els(Pick("ids")[1].l) \in {O.a, P.a} /\ NoDup(Pick("ids")[1].l)
     ELSE Pick("ids") = <<>>
Routed == {"nb", "closest", "direct", "unknown"}
RoutedOuts == SelectSeq(o.outs, LAMBDA x : x.k \in Routed)
RoutedUps == SelectSeq(o.ups, LAMBDA x : x.k # "list")
Hop(key, last) == NextHops(c.cb, 1, O.a, con, key, last)
C09 ==
  CASE o.op = "closest" ->
       \/ /\ MayEnd(c.cb, 1, O.a, con, o.key) /\ RoutedOuts = <<>> /\ ~FinerLeft(c.cb, 1, O.a, O.nb, o.key, o.f)
          /\ RoutedUps = <<IF o.key = 1 THEN [k |-> "dest", g |-> o.g, f |-> o.f, m |-> o.m]
                           ELSE [k |-> "closest", g |-> o.g, f |-> o.f, key |-> o.key, m |-> o.m]>>
       \/ \E x \in Hop(o.key, o.f) : /\ RoutedOuts = <<[t |-> x, k |-> "closest", g |-> o.g, key |-> o.key, m |-> o.m]>>
                                     /\ RoutedUps = <<[k |-> "routing", g |-> o.g, f |-> o.f, t |-> x, key |-> o.key, m |-> o.m]>>
  [] o.op = "direct" ->
       IF o.key = 1 THEN RoutedOuts = <<>> /\ RoutedUps = <<[k |-> "dest", g |-> o.g, f |-> o.f, m |-> o.m]>>
       ELSE RoutedUps = <<>> /\ \/ RoutedOuts = <<>> /\ MayEnd(c.cb, 1, O.a, con, o.key)
                                \/ \E x \in Hop(o.key, o.f) : RoutedOuts = <<[t |-> x, k |-> "direct", g |-> o.g, key |-> o.key, m |-> o.m]>>
  [] o.op \in {"upClosest", "upDirect"} ->
       LET kind == IF o.op = "upClosest" THEN "closest" ELSE "direct" IN
       /\ RoutedUps = <<>>
       /\ IF o.key = 1 \/ Hop(o.key, 0) = {} THEN RoutedOuts = <<>>
          ELSE \E x \in Hop(o.key, 0) : RoutedOuts = <<[t |-> x, k |-> kind, g |-> 1, key |-> o.key, m |-> o.m]>>
  [] o.op = "upBcast" -> /\ RoutedUps = <<>> /\ NoDup(RoutedOuts)
                         /\ Els(RoutedOuts) = {[t |-> x, k |-> "nb", m |-> o.m] : x \in O.a}
  [] o.op = "upNb" -> RoutedUps = <<>> /\ RoutedOuts = <<[t |-> o.f, k |-> "nb", m |-> o.m]>>
  [] o.op = "nb" -> RoutedOuts = <<>> /\ RoutedUps = <<[k |-> "nb", f |-> o.f, m |-> o.m]>>
  [] OTHER -> RoutedOuts = <<>> /\ RoutedUps = <<>>
Judge == CASE PROP = "C07" -> C07 [] PROP = "C08" -> C08 [] PROP = "C09" -> C09
Init == t \in 1..Len(Traces) /\ k = 0 /\ O = [nb |-> 0, a |-> {}, x |-> {}] /\ s = [i \in {} |-> 0] /\ con = {}
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE
           /\ k' = k + 1 /\ t' = t /\ O' = Obs /\ con' = Els(o.tab.con)
           /\ s' = IF o.op = "tick" THEN SilenceAfterTick(c, O, Obs, [i \in O.a \cup O.x |-> s[i]])
                   ELSE SilenceAfter(c, Obs, IF o.op = "disc" THEN [i \in DOMAIN s \ {o.f} |-> s[i]] ELSE s, IF o.op \in From THEN o.f ELSE 0)
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
