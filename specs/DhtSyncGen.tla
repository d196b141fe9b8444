----------------------------- MODULE DhtSyncGen -----------------------------
(* Random behaviours of DhtSync: what is put into which node, who           *)
(* synchronises, and which message is delivered or lost when.               *)
EXTENDS DhtSync, Json, IOUtils
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLES sh, ns, net, hist, done
vars == <<sh, ns, net, hist, done>>
c == Shapes[sh]
n == c.nodes
Ids == 1..Len(c.flos)
Rs == 1..Len(c.realms)
R(S) == RandomElement(S)
Nb(i) == {j \in 1..n : <<i, j>> \in ToSet(c.edges) \/ <<j, i>> \in ToSet(c.edges)}
Kids(id) == {x \in Ids : c.flos[x].parent = id}
Put(i, id) == [op |-> "put", n |-> i, id |-> id, v |-> R(0..(Len(c.flos[id].vers) - 1)), c |-> SetToSeq(R(SUBSET (Kids(id) \cup {R(Ids)})))]
Init == sh \in 1..Len(Shapes) /\ ns = [i \in 1..Shapes[sh].nodes |-> InitNode] /\ net = {} /\ hist = <<>> /\ done = FALSE
DoPut == \E r \in {R(Rs)}, i \in {R(1..n)} : \E id \in {IF r \in DOMAIN ns[i].held THEN R({x \in Ids : RealmOf(c, x) = r})
                                                         ELSE IF R(1..6) = 1 THEN R(Ids) ELSE c.realms[r].root} :
         \E o \in {Put(i, id)} : /\ \E s \in {R(ValueIn(c, ns[i], o))} : ns' = [ns EXCEPT ![i] = s]
                                   /\ hist' = Append(hist, o) /\ UNCHANGED net
DoSync == \E i \in {R(1..n)} : /\ net' = net \cup {[f |-> i, t |-> j, k |-> "reqRealms"] : j \in Nb(i)}
                               /\ hist' = Append(hist, [op |-> "sync", n |-> i]) /\ UNCHANGED ns
DoProp == \E i \in {R(1..n)} : /\ net' = net \cup {[f |-> i, t |-> j, k |-> "realms", rs |-> DOMAIN ns[i].held] : j \in Nb(i)}
                               /\ hist' = Append(hist, [op |-> "prop", n |-> i]) /\ UNCHANGED ns
Mess(m, o) == hist' = Append(hist, [op |-> o, f |-> m.f, t |-> m.t, k |-> m.k])
DoDeliver == net # {} /\ \E m \in {R(net)} : \E s \in {R(After(c, ns[m.t], m))} :
                 /\ ns' = [ns EXCEPT ![m.t] = s] /\ net' = (net \ {m}) \cup Replies(c, ns[m.t], m) /\ Mess(m, "deliver")
DoLose == net # {} /\ \E m \in {R(net)} : net' = net \ {m} /\ UNCHANGED ns /\ Mess(m, "lose")
DoDup == net # {} /\ \E m \in {R(net)} : \E s \in {R(After(c, ns[m.t], m))} :
                 /\ ns' = [ns EXCEPT ![m.t] = s] /\ net' = net \cup Replies(c, ns[m.t], m) /\ Mess(m, "dup")
Step == /\ Len(hist) < c.ops
        /\ LET w == R(1..20) IN
           IF Len(hist) < c.puts THEN DoPut
           ELSE IF net = {} THEN (IF w <= 8 THEN DoPut ELSE IF w <= 10 THEN DoProp ELSE DoSync)
           ELSE IF w <= 14 THEN DoDeliver ELSE IF w = 15 THEN DoLose ELSE IF w = 16 THEN DoDup ELSE IF w = 17 THEN DoPut ELSE IF w = 18 THEN DoProp ELSE DoSync
        /\ UNCHANGED <<sh, done>>
Finish == /\ Len(hist) = c.ops /\ ~done /\ done' = TRUE
          /\ PrintT(ToJsonObject([shape |-> c.shape, n |-> n, edges |-> c.edges, ops |-> hist, order |-> R(0..1000000)]))
          /\ UNCHANGED <<sh, ns, net, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
