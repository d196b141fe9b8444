----------------------------- MODULE WebProxyMC -----------------------------
(* One node asking two others, answers of up to PX pieces on links which    *)
(* keep the order, with copies by wrong nodes and late ones.                *)
EXTENDS WebProxy
CONSTANTS NR, PX, EV
Nodes == {2, 3}
VARIABLES req, asked, link, made, read, ev
vars == <<req, asked, link, made, read, ev>>
Full(m) == <<[m |-> m, k |-> "header", v |-> m]>> \o [i \in 1..made[m] |-> [m |-> m, k |-> "body", v |-> m * 10 + i]] \o <<[m |-> m, k |-> "done", v |-> 0]>>
New == /\ Len(req) < NR /\ \E d \in Nodes, px \in 0..PX :
          /\ Turn(asked, Nodes, d) /\ asked' = Append(asked, d)
          /\ req' = Append(req, Req(d)) /\ made' = Append(made, px) /\ read' = Append(read, <<>>)
          /\ link' = [link EXCEPT ![d] = Append(@, Len(req) + 1)]
       /\ UNCHANGED ev
VARIABLE pos
\* a node sends the next piece of one of the answers it has to give
Send == \E m \in DOMAIN req : pos[m] < Len(Full(m)) /\
   LET x == Full(m)[pos[m] + 1] IN
   /\ pos' = [pos EXCEPT ![m] = @ + 1]
   /\ req' = [req EXCEPT ![m] = Answer(@, req[m].dst, x.k, x.v)]
   /\ UNCHANGED <<asked, link, made, read, ev>>
Stray == ev < EV /\ ev' = ev + 1 /\ \E m \in DOMAIN req, f \in Nodes, k \in {"header", "body", "done"} :
   (f # req[m].dst \/ pos[m] = Len(Full(m))) /\ req' = [req EXCEPT ![m] = Answer(@, f, k, 99)] /\ UNCHANGED <<asked, link, made, read, pos>>
Rd == \E m \in DOMAIN req, n \in 1..2 : req[m].st = "have" /\ req' = [req EXCEPT ![m] = Read(@, n)] /\ read' = [read EXCEPT ![m] = @ \o Reads(req[m], n)]
   /\ UNCHANGED <<asked, link, made, ev, pos>>
Tick == \E m \in DOMAIN req : req[m].st = "wait" /\ req' = [i \in DOMAIN req |-> Wait(req[i], 3)] /\ UNCHANGED <<asked, link, made, read, ev, pos>>
Init == req = <<>> /\ asked = <<>> /\ link = [d \in Nodes |-> <<>>] /\ made = <<>> /\ read = <<>> /\ ev = 0 /\ pos = <<>>
Next == (New /\ pos' = Append(pos, 0)) \/ Send \/ Stray \/ Rd \/ Tick
Spec == Init /\ [][Next]_<<vars, pos>>
Pieces(m) == [i \in 1..made[m] |-> m * 10 + i]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Own == \A m \in DOMAIN req : req[m].hdr \in {0, m} /\ IsPrefix(read[m] \o req[m].q, Pieces(m))
Complete == \A m \in DOMAIN req : req[m].st = "end" => read[m] = Pieces(m) /\ req[m].hdr = m
Fair == \A d, e \in Nodes : LET N(x) == Cardinality({i \in DOMAIN asked : asked[i] = x}) IN N(d) <= N(e) + 1
=============================================================================
