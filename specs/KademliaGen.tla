----------------------------- MODULE KademliaGen ----------------------------
(* Behaviours of one DHT router (mode "one"), everything around it          *)
(* simulated, or of several with partial tables which route messages.       *)
EXTENDS Kademlia, Json, IOUtils
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLES sh, K, con, hist, done
vars == <<sh, K, con, hist, done>>
c == Shapes[sh]
Nodes == 2..c.n
All == 1..Len(c.depth)
R(S) == RandomElement(S)
Known == Members(K) \ {1}
Prefer(S, T) == IF S # {} /\ R(1..10) <= 8 THEN R(S) ELSE R(T)
ShuffleS(S) == LET q == SetToSeq(S) i == R(1..(Cardinality(S) + 1)) IN SubSeq(q, i, Len(q)) \o Reverse(SubSeq(q, 1, i - 1))
Some(n, T) == LET m == R(0..n) IN IF m = 0 THEN {} ELSE {R(T) : x \in 1..m}
Put(o) == hist' = Append(hist, o)
Same == UNCHANGED <<K, con>>
NotMe(l) == SelectSeq(l, LAMBDA i : i # 1)
AddAll(T, l) == AddList(c, T, NotMe(l))
Heard1(f, o) == K' = Heard(c, K, f) /\ con' = con /\ Put(o)
Sender == IF R(1..10) <= 7 /\ Known # {} THEN (IF R(1..2) = 1 /\ Known \ Actives(K) # {} THEN R(Known \ Actives(K)) ELSE R(Known)) ELSE R(Nodes)
\* keys and last hops for which only the finer places are left
Finer == LET a == Actives(K)
             fine == Max({0} \cup {c.depth[x] : x \in {y \in a : c.depth[y] >= Abs(K).nb}})
         IN {p \in (All \ (con \cup {1})) \X Nodes : /\ \A x \in a : c.depth[x] # c.depth[p[1]]
                                                   /\ \E x \in a : c.depth[x] > Max({c.depth[p[1]], c.depth[p[2]]}) /\ c.depth[x] < fine}
One == \E w \in {R(1..40)} : \E f \in {Sender}, key \in {R(All)}, g \in {R(All)} : \E l \in {ShuffleS(Some(4, 1..c.n))} :
  \/ w <= 2 /\ \E s \in {NotMe(ShuffleS(con \cup {R(Nodes)}))} : con' = Els(s) /\ K' = AddAll(K, s) /\ Put([op |-> "conlist", l |-> s])
  \/ w = 3 /\ con' = con \cup {f} /\ K' = Add(c, K, f) /\ Put([op |-> "con", f |-> f])
  \/ w \in 4..5 /\ \E x \in {Prefer(Known, Nodes)} : con' = con \ {x} /\ K' = RemoveNode(c, AddAll(K, SetToSeq(con \ {x})), x)
         /\ Put([op |-> "disc", f |-> x, l |-> SetToSeq(con \ {x})])
  \/ w \in 6..8 /\ K' = AddAll(K, l) /\ con' = con /\ Put([op |-> "avail", l |-> l])
  \/ w \in 9..12 /\ Heard1(f, [op |-> "pong", f |-> f])
  \/ w \in 13..14 /\ Heard1(f, [op |-> "ping", f |-> f])
  \/ w = 15 /\ Heard1(f, [op |-> "idsReq", f |-> f])
  \/ w \in 16..18 /\ K' = Heard(c, AddAll(K, l), f) /\ con' = con /\ Put([op |-> "ids", f |-> f, l |-> l])
  \/ w = 19 /\ Heard1(f, [op |-> "nb", f |-> f])
  \/ w = 20 /\ Heard1(f, [op |-> "junk", f |-> f])
  \/ w \in 21..23 /\ \E p \in {IF R(1..2) = 1 /\ Finer # {} THEN R(Finer) ELSE <<key, f>>} :
       Heard1(p[2], [op |-> "closest", f |-> p[2], g |-> g, key |-> p[1]])
  \/ w \in 24..25 /\ \E d \in {R(1..c.n)} : Heard1(f, [op |-> "direct", f |-> f, g |-> g, key |-> d])
  \/ w = 26 /\ Same /\ Put([op |-> "upBcast"])
  \/ w = 27 /\ Same /\ Put([op |-> "upNb", f |-> f])
  \/ w = 28 /\ Same /\ Put([op |-> "upClosest", key |-> key])
  \/ w = 29 /\ Same /\ \E d \in {R(Nodes)} : Put([op |-> "upDirect", key |-> d])
  \/ w >= 30 /\ K' = Tick(c, K) /\ con' = con /\ Put([op |-> "tick"])
\* several routers: what each knows (all of it active), then messages
Many == Same /\ \E from \in {R(1..c.n)}, key \in {R(All)}, d \in {R(1..c.n)} :
   Put(IF R(1..3) = 1 THEN [op |-> "direct", g |-> from, key |-> d] ELSE [op |-> "closest", g |-> from, key |-> key])
Init == sh \in 1..Len(Shapes) /\ K = NewTable /\ con = {} /\ hist = <<>> /\ done = FALSE
Tables == [i \in 1..c.n |-> [a |-> ShuffleS(Some(c.know, (1..c.n) \ {i})), con |-> ShuffleS(Some(c.cons, (1..c.n) \ {i}))]]
Step == Len(hist) < c.ops /\ (IF c.mode = "one" THEN One ELSE Many) /\ UNCHANGED <<sh, done>>
Finish == /\ Len(hist) = c.ops /\ ~done /\ done' = TRUE
          /\ PrintT(ToJsonObject([shape |-> c, ops |-> hist, tables |-> IF c.mode = "many" THEN Tables ELSE <<>>])) /\ UNCHANGED <<sh, K, con, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
ShapeOK == Shape(c, Abs(K))
=============================================================================
