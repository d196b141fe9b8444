------------------------------ MODULE GossipGen -----------------------------
(* Behaviours of one gossip node (mode "one") or of several (mode "many").  *)
EXTENDS Gossip, SequencesExt, Json, IOUtils
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLES sh, held, nb, net, hist, done
vars == <<sh, held, nb, net, hist, done>>
c == Shapes[sh]
E == 1..Len(c.events)
R(S) == RandomElement(S)
Sub(k) == LET n == R(0..k) IN IF n = 0 THEN {} ELSE {R(E) : x \in 1..n}
Shuffle(S) == LET q == SetToSeq(S) i == R(1..(Cardinality(S) + 1)) IN SubSeq(q, i, Len(q)) \o Reverse(SubSeq(q, 1, i - 1))
Nbs(i) == {j \in 1..c.n : <<i, j>> \in ToSet(c.edges) \/ <<j, i>> \in ToSet(c.edges)}
Init == /\ sh \in 1..Len(Shapes) /\ held = [i \in 1..Shapes[sh].n |-> {}] /\ nb = [i \in 1..Shapes[sh].n |-> {}]
        /\ net = {} /\ hist = <<>> /\ done = FALSE
Put(o) == hist' = Append(hist, o)
\* one node (1), everything from outside; the other nodes are 2..4
One == \E w \in {R(1..20)}, f \in {R(2..4)} :
  \/ w <= 5 /\ \E e \in {R(E)} : \E r \in {R(AddAll(c, {<<held[1], <<>>>>}, <<e>>))} :
       held' = [held EXCEPT ![1] = r[1]] /\ Put([op |-> "add", e |-> e]) /\ UNCHANGED <<nb, net>>
  \/ w \in 6..10 /\ \E l \in {Shuffle(Sub(c.batch) \cup {R(E)})} : \E r \in {R(AddAll(c, {<<held[1], <<>>>>}, l))} :
       held' = [held EXCEPT ![1] = r[1]] /\ Put([op |-> "events", f |-> f, l |-> l]) /\ UNCHANGED <<nb, net>>
  \/ w \in 11..13 /\ Put([op |-> "known", f |-> f, l |-> Shuffle(Sub(c.batch))]) /\ UNCHANGED <<held, nb, net>>
  \/ w \in 14..15 /\ Put([op |-> "req", f |-> f, l |-> Shuffle(Sub(c.batch) \cup (IF held[1] = {} THEN {} ELSE {R(held[1])}))]) /\ UNCHANGED <<held, nb, net>>
  \/ w = 16 /\ Put([op |-> "reqIds", f |-> f]) /\ UNCHANGED <<held, nb, net>>
  \/ w = 17 /\ \E s \in {R(SUBSET (2..4))} : nb' = [nb EXCEPT ![1] = s] /\ Put([op |-> "nodes", l |-> Shuffle(s)]) /\ UNCHANGED <<held, net>>
  \/ w = 18 /\ Put([op |-> "tick"]) /\ UNCHANGED <<held, nb, net>>
  \/ w = 19 /\ Put([op |-> "restart"]) /\ UNCHANGED <<held, net>> /\ nb' = [nb EXCEPT ![1] = {}]
  \/ w = 20 /\ Put([op |-> "junk", f |-> f]) /\ UNCHANGED <<held, nb, net>>
\* several nodes
Deliver(o) == net # {} /\ \E m \in {R(net)} : \E r \in {R(AddAll(c, {<<held[m.t], <<>>>>}, IF m.k = "events" THEN SetToSeq(m.ids) ELSE <<>>))} :
    /\ held' = [held EXCEPT ![m.t] = r[1]]
    /\ net' = (IF o = "dup" THEN net ELSE net \ {m}) \cup React(c, m.t, held[m.t], m, ToSet(r[2]), Nbs(m.t))
    /\ Put([op |-> o, f |-> m.f, t |-> m.t, k |-> m.k]) /\ UNCHANGED nb
Lose == net # {} /\ \E m \in {R(net)} : net' = net \ {m} /\ Put([op |-> "lose", f |-> m.f, t |-> m.t, k |-> m.k]) /\ UNCHANGED <<held, nb>>
Add == \E e \in {R(E)}, i \in {R(1..c.n)} : \E r \in {R(AddAll(c, {<<held[i], <<>>>>}, <<e>>))} :
    /\ held' = [held EXCEPT ![i] = r[1]] /\ net' = net \cup Announce(c, i, Nbs(i), i, ToSet(r[2]))
    /\ Put([op |-> "add", n |-> i, e |-> e]) /\ UNCHANGED nb
Tick == \E i \in {R(1..c.n)} : net' = net \cup {Mess(i, j, "reqIds", {}) : j \in Nbs(i)} /\ Put([op |-> "tick", n |-> i]) /\ UNCHANGED <<held, nb>>
Many == \E w \in {R(1..20)} : IF net = {} THEN (IF w <= 12 THEN Add ELSE Tick)
     ELSE IF w <= 11 THEN Deliver("deliver") ELSE IF w = 12 THEN Lose ELSE IF w = 13 THEN Deliver("dup") ELSE IF w <= 17 THEN Add ELSE Tick
Step == Len(hist) < c.ops /\ (IF c.mode = "one" THEN One ELSE Many) /\ UNCHANGED <<sh, done>>
Finish == /\ Len(hist) = c.ops /\ ~done /\ done' = TRUE
          /\ PrintT(ToJsonObject([shape |-> c, ops |-> hist, order |-> R(0..1000000)])) /\ UNCHANGED <<sh, held, nb, net, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Bounded == \A i \in 1..c.n : IsNewest(c, held[i], held[i])
=============================================================================
