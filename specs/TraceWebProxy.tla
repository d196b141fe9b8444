---------------------------- MODULE TraceWebProxy ---------------------------
(* Recorded histories of one real node asking others to proxy for it, their *)
(* answers made by the driver; and of one real node answering another one   *)
(* from a local web server. (C22)                                           *)
EXTENDS WebProxy, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, nodes, req, asked
vars == <<t, k, nodes, req, asked>>
S == Traces[t].steps
o == S[k+1]
\* what the clients see in this step: header [m, k, v, f], late [m, k]
Seen == {<<o.ev[i].m, o.ev[i].k, o.ev[i].v, o.ev[i].f>> : i \in DOMAIN o.ev}
Once == Cardinality(Seen) = Len(o.ev)
\* a request which cannot be answered anymore may be given up early
Hopeless(r) == r.st = "wait" /\ ~r.open
Changes(new) == LET E == {m \in DOMAIN new : m \in DOMAIN req => new[m].st # req[m].st} IN
  {<<m, "header", new[m].hdr, new[m].dst>> : m \in {x \in E : new[x].st = "have"}} \cup {<<m, "late", 0, 0>> : m \in {x \in E : new[x].st = "late"}}
After(new) == /\ Once /\ \E early \in SUBSET {m \in DOMAIN new : Hopeless(new[m])} :
                 LET n2 == [m \in DOMAIN new |-> IF m \in early THEN [new[m] EXCEPT !.st = "late"] ELSE new[m]] IN
                 Seen = Changes(n2) /\ req' = n2
Same == UNCHANGED <<nodes, asked>>
RECURSIVE Times(_, _, _, _)
Times(r, f, v, n) == IF n = 0 THEN r ELSE Times(Answer(r, f, "body", v * 1000 + n), f, v, n - 1)
RespOk == LET r == req[o.m] f == IF o.right THEN r.dst ELSE 0
              new == IF o.kind = "body" THEN Times(r, f, o.v, o.n) ELSE Answer(r, f, o.kind, o.v) IN
          Same /\ o.sent = <<>> /\ After([req EXCEPT ![o.m] = new])
GetOk == /\ IF nodes = {} THEN o.sent = <<>> /\ UNCHANGED asked
            ELSE /\ Len(o.sent) = 1 /\ o.url /\ Turn(asked, nodes, o.sent[1]) /\ asked' = Append(asked, o.sent[1])
         /\ UNCHANGED nodes
         /\ After(Append(req, Req(IF nodes = {} THEN 0 ELSE o.sent[1])))
ReadOk == LET r == req[o.m] new == Read(r, o.n) IN
  /\ Same /\ o.sent = <<>> /\ After([req EXCEPT ![o.m] = new])
  /\ o.read = Reads(r, o.n) /\ o.end = (new.st = "end" /\ r.st # "end")
(* a served request: messages in the order header, body pieces, end; the    *)
(* client gets exactly that                                                 *)
Shape(q, ends) == LET body == SelectSeq(q, LAMBDA x : x = "body") IN
  /\ q # <<>> /\ q[1] = "header"
  /\ \A i \in DOMAIN q : i \in 2..(Len(body) + 1) => q[i] = "body"
  /\ Len(q) > Len(body) + 1 /\ \A i \in (Len(body) + 2)..Len(q) : q[i] \in ends
Served(x) ==
  /\ x.to
  /\ CASE x.ending \in {"length", "chunked"} -> Shape(x.seq, {"done"}) /\ x.hdr /\ x.content = "whole" /\ (x.slow \/ (x.got = "header" /\ x.gothdr /\ x.text = "whole"))
       [] x.ending = "cut" -> Shape(x.seq, {"done", "error"}) /\ x.seq[Len(SelectSeq(x.seq, LAMBDA y : y = "body")) + 2] = "error" /\ x.hdr /\ x.content \in {"whole", "prefix"}
                              /\ (x.slow \/ (x.got = "header" /\ x.gothdr /\ x.text = x.content))
       [] x.ending = "refused" -> x.seq # <<>> /\ (\A i \in DOMAIN x.seq : x.seq[i] \in {"error", "done"}) /\ x.seq[1] = "error" /\ x.got = "late"
ServeOk == UNCHANGED <<nodes, asked, req>> /\ \A i \in DOMAIN o.res : Served(o.res[i])
Judge == CASE o.op = "nodes" -> /\ o.sent = <<>> /\ After(req)
                                /\ nodes' = ({o.l[i] : i \in DOMAIN o.l} \ {1}) \ {o.no[i] : i \in DOMAIN o.no}
                                /\ asked' = <<>>
           [] o.op = "get" -> GetOk
           [] o.op = "resp" -> RespOk
           [] o.op = "read" -> ReadOk
           [] o.op = "junk" -> Same /\ o.sent = <<>> /\ After(req)
           [] o.op = "tick" -> Same /\ o.sent = <<>> /\ After([m \in DOMAIN req |-> Wait(req[m], o.s)])
           [] o.op = "leave" -> Same /\ o.sent = <<>> /\ After([req EXCEPT ![o.m].st = "left"])
           [] o.op = "serve" -> ServeOk
Ops == {"nodes", "get", "resp", "read", "junk", "tick", "leave", "serve"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ nodes = {} /\ req = <<>> /\ asked = <<>>
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
