----------------------------- MODULE KademliaMC -----------------------------
(* Exhaustive: the algorithm respects the rules in every history.           *)
EXTENDS Kademlia
CONSTANTS CFG
c == CASE CFG = "A" -> [k |-> 1, pi |-> 1, pt |-> 2, depth |-> <<0, 0, 0, 1, 1, 2>>]
       [] CFG = "B" -> [k |-> 2, pi |-> 2, pt |-> 3, depth |-> <<0, 0, 1, 1, 2, 2>>]
       [] CFG = "C" -> [k |-> 1, pi |-> 2, pt |-> 3, depth |-> <<0, 0, 0, 0, 1, 2, 3>>]
Ids == 1..Len(c.depth)
VARIABLES K, s, last
vars == <<K, s, last>>
O == Abs(K)
Init == K = NewTable /\ s = [i \in {} |-> 0] /\ last = [op |-> "init"]
Do(K2, l) == /\ K' = K2 /\ last' = l
             /\ s' = IF l.op = "tick" THEN SilenceAfterTick(c, O, Abs(K2), s) ELSE SilenceAfter(c, Abs(K2), s, IF l.op = "heard" THEN l.id ELSE 0)
Next == \/ \E id \in Ids : \/ Do(Add(c, K, id), [op |-> "add", id |-> id])
                           \/ Do(RemoveNode(c, K, id), [op |-> "remove", id |-> id])
                           \/ Do(Heard(c, K, id), [op |-> "heard", id |-> id])
        \/ Do(Tick(c, K), [op |-> "tick", pings |-> Pings(c, K)])
Spec == Init /\ [][Next]_vars
View == <<K, s>>
ShapeOK == Shape(c, O) /\ Cardinality(Members(K)) = Count(K.r) + FoldSet(LAMBDA i, acc : acc + Count(K.b[i]), 0, 1..Len(K.b))
Placed == \A i \in 1..Len(K.b) : \A x \in InB(K.b[i]) : D(c, x) = i - 1
RootPlaced == \A x \in InB(K.r) : D(c, x) >= Len(K.b)
StepOK == [][CASE last'.op = "add" -> AddOK(c, O, Abs(K'), {last'.id})
               [] last'.op = "remove" -> RemoveOK(c, O, Abs(K'), last'.id)
               [] last'.op = "heard" -> HeardOK(c, O, Abs(K'), last'.id)
               [] last'.op = "tick" -> TickOK(c, O, Abs(K'), s, last'.pings)]_vars
SilenceOK == \A i \in Members(K) : K.s[i] <= s[i].n /\ (s[i].ex => K.s[i] = s[i].n)
=============================================================================
