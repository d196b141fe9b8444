----------------------------- MODULE WebProxyGen ----------------------------
EXTENDS WebProxy, Json, TLC
VARIABLES ops, nodes, req, hist, done, served
vars == <<ops, nodes, req, hist, done, served>>
R(S) == RandomElement(S)
RECURSIVE RSeq(_, _)
RSeq(S, n) == IF n = 0 THEN <<>> ELSE Append(RSeq(S, n - 1), R(S))
Do(o) == hist' = Append(hist, o)
V == Len(hist) + 1
Keep == UNCHANGED <<nodes, req>>
\* prefer requests which still want something
Pick == LET A == {m \in DOMAIN req : req[m].dst # 0} B == {m \in A : req[m].open /\ Listens(req[m])} IN
  IF A = {} THEN 0 ELSE IF B # {} /\ R(1..8) <= 6 THEN R(B) ELSE R(A)
Have == LET A == {m \in DOMAIN req : req[m].st = "have"} IN IF A = {} THEN 0 ELSE R(A)
Nodes == \E l \in {RSeq(1..5, R(0..6))}, rev \in {R(BOOLEAN)}, no \in {IF R(1..2) = 1 THEN {} ELSE {R(2..5)}} :
  LET u == {l[i] : i \in DOMAIN l} IN
  /\ Do([op |-> "nodes", l |-> SelectSeq([i \in 1..5 |-> IF rev THEN 6 - i ELSE i], LAMBDA x : x \in u), no |-> no])
  /\ nodes' = (u \ {1}) \ no /\ UNCHANGED req
Get == Do([op |-> "get"]) /\ req' = Append(req, Req(IF nodes = {} THEN 0 ELSE 2)) /\ UNCHANGED nodes
Resp(m, w, r) ==
  LET right == r > 1
      st == req[m].st
      kind == IF st = "wait" THEN (IF w <= 6 THEN "header" ELSE IF w <= 8 THEN "body" ELSE IF w = 9 THEN "done" ELSE "error")
              ELSE (IF w = 1 THEN "header" ELSE IF w <= 7 THEN "body" ELSE IF w <= 9 THEN "done" ELSE "error") IN
  /\ Do([op |-> "resp", m |-> m, right |-> right, kind |-> kind, n |-> IF kind = "body" /\ R(1..15) = 1 THEN R({2, 130, 300}) ELSE 1])
  /\ req' = [req EXCEPT ![m] = Answer(@, IF right THEN req[m].dst ELSE 0, kind, V)] /\ UNCHANGED nodes
One == \E w \in {R(1..40)}, x \in {R(1..10)}, r \in {R(1..9)}, m \in {Pick}, h \in {Have} :
  IF nodes = {} /\ r <= 4 THEN Nodes
  ELSE IF w <= 2 THEN Nodes
  ELSE IF w <= 8 \/ m = 0 THEN Get
  ELSE IF w <= 28 THEN Resp(m, x, r)
  ELSE IF w <= 35 THEN (IF h = 0 THEN Resp(m, x, r) ELSE \E n \in {R({1, 2, 3, 500})} : Do([op |-> "read", m |-> h, n |-> n]) /\ req' = [req EXCEPT ![h] = Read(@, n)] /\ UNCHANGED nodes)
  ELSE IF w = 36 THEN Do([op |-> "junk", m |-> m, r |-> R(1..4)]) /\ Keep
  ELSE IF w <= 38 THEN \E s \in {R({1, 2, 4, 6})} : Do([op |-> "tick", s |-> s]) /\ req' = [i \in DOMAIN req |-> Wait(req[i], s)] /\ UNCHANGED nodes
  ELSE IF h # 0 /\ w = 39 THEN Do([op |-> "leave", m |-> h]) /\ req' = [req EXCEPT ![h].st = "left"] /\ UNCHANGED nodes
  ELSE Get
Serve(i) == [pieces |-> R({0, 1, 2, 3, 50, 600}), size |-> R({1, 7, 1000}), status |-> R({200, 200, 404, 500}), hk |-> R(1..4),
          ending |-> LET x == R(1..40) IN IF x <= 28 THEN "length" ELSE IF x <= 35 THEN "chunked" ELSE IF x <= 39 THEN "cut" ELSE "refused"]
RECURSIVE Serves(_)
Serves(n) == IF n = 0 THEN <<>> ELSE Append(Serves(n - 1), Serve(n))
Choose == /\ \E x \in {R(1..10)} : ops' = IF x = 1 THEN 1 ELSE IF x <= 5 THEN 25 ELSE 50
          /\ UNCHANGED <<nodes, req, hist, done, served>>
Init == ops = 0 /\ nodes = {} /\ req = <<>> /\ hist = <<>> /\ done = FALSE /\ served = FALSE
Step == /\ Len(hist) < ops /\ UNCHANGED <<ops, done, served>>
        /\ IF ops = 1 THEN \E s \in {Serves(R(1..6))} : Do([op |-> "serve", l |-> s]) /\ Keep ELSE One
Finish == Len(hist) = ops /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([ops |-> hist])) /\ UNCHANGED <<ops, nodes, req, hist, served>>
Next == IF ops = 0 THEN Choose ELSE Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
