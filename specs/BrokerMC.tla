------------------------------ MODULE BrokerMC ------------------------------
(* The mechanism: every broker has one queue and treats one item at a time; *)
(* settling asks all linked brokers which are not among the callers, and    *)
(* answers when they have answered, while the broker goes on.               *)
EXTENDS Broker, TLC
CONSTANTS NB, NLinks, NEmit, NSettle
B == 1..NB
D == {"i", "o"}
VARIABLES G, q, log, left, setl, wait, done, nxt
vars == <<G, q, log, left, setl, wait, done, nxt>>
AllLinks == {[f |-> f, fd |-> fd, t |-> t, td |-> td] : f \in B, fd \in D, t \in B, td \in D}
Label(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Graphs == {L \in UNION {{{a}, {a, b}} : a \in AllLinks, b \in AllLinks} : TRUE}
Links3 == IF NLinks = 2 THEN Graphs ELSE {L \cup {a} : L \in Graphs, a \in AllLinks}
Mk(L) == LET s == Label(L) IN {[f |-> s[i].f, fd |-> s[i].fd, t |-> s[i].t, td |-> s[i].td, lab |-> i, flt |-> 0] : i \in DOMAIN s}
Ems == 1..NEmit
Init == /\ \E L \in Links3, h \in {{}, {[b |-> 2, n |-> 1, outs |-> 1, lim |-> 1]}} : G = [links |-> Mk(L), hands |-> h]
        /\ q = [b \in B |-> <<>>] /\ log = [b \in B |-> [d \in D |-> <<>>]] /\ left = Ems /\ setl = <<>> /\ wait = {} /\ done = {} /\ nxt = 1
\* all is emitted to broker 1, its inputs
Em(id) == [id |-> id, b |-> 1, d |-> "i", dst |-> "all", h |-> 0]
Emit == \E id \in left : /\ \A x \in left : id <= x
        /\ left' = left \ {id} /\ q' = [q EXCEPT ![1] = Append(@, [k |-> "m", id |-> id, d |-> "i", via |-> <<>>, tr |-> {}])]
        /\ UNCHANGED <<G, log, setl, wait, done, nxt>>
\* settle broker 1 or 2 at any time; remember what had been emitted before to broker 1
Settle == \E b \in {1, 2} : /\ Len(setl) < NSettle
        /\ setl' = Append(setl, [tok |-> nxt, b |-> b, ids |-> Ems \ left]) /\ nxt' = nxt + 1
        /\ q' = [q EXCEPT ![b] = Append(@, [k |-> "s", tok |-> nxt, l |-> {}])]
        /\ UNCHANGED <<G, log, left, wait, done>>
Set2Seq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* forwards of message m (direction d) at broker b
Fwd(b, m) == IF b \in m.tr THEN {} ELSE {<<l.t, [k |-> "m", id |-> m.id, d |-> l.td, via |-> Append(m.via, l.lab), tr |-> m.tr \cup {b}]>> : l \in {x \in G.links : x.f = b /\ x.fd = m.d}}
Outs(b, m) == IF m.d = "o" THEN {} ELSE UNION {{[k |-> "m", id |-> m.id, d |-> "o", via |-> Append(m.via, lab), tr |-> {}] : lab \in Labels(h)} : h \in {x \in G.hands : x.b = b /\ Hops(m.via) < x.lim}}
RECURSIVE Enq(_, _)
Enq(qq, S) == IF S = <<>> THEN qq ELSE Enq([qq EXCEPT ![S[1][1]] = Append(@, S[1][2])], Tail(S))
Treat == \E b \in B : q[b] # <<>> /\ LET m == Head(q[b]) r == [q EXCEPT ![b] = Tail(@)] IN
  \/ /\ m.k = "m"
     /\ LET o == Set2Seq(Outs(b, m))
            f == Set2Seq(Fwd(b, m) \cup UNION {Fwd(b, o[i]) : i \in DOMAIN o})
        IN /\ q' = Enq(r, f)
           /\ log' = [log EXCEPT ![b] = [x \in D |-> (IF m.d = x THEN Append(@[x], <<m.id, m.via>>) ELSE @[x]) \o
                         (IF x = "o" THEN [i \in DOMAIN o |-> <<o[i].id, o[i].via>>] ELSE <<>>)]]
     /\ UNCHANGED <<G, left, setl, wait, done, nxt>>
  \/ /\ m.k = "s"
     /\ LET ts == IF b \in m.l THEN {} ELSE {l \in G.links : l.f = b /\ l.t \notin m.l \cup {b}}
            s == Set2Seq(ts)
            toks == {nxt + i : i \in 0..(Len(s) - 1)}
        IN /\ q' = Enq(r, [i \in DOMAIN s |-> <<s[i].t, [k |-> "s", tok |-> nxt + i - 1, l |-> m.l \cup {b}]>>])
           /\ nxt' = nxt + Len(s)
           /\ wait' = wait \cup {[tok |-> m.tok, on |-> toks]}
     /\ UNCHANGED <<G, log, left, setl, done>>
Answer == \E w \in wait : w.on \subseteq done /\ done' = done \cup {w.tok} /\ wait' = wait \ {w} /\ UNCHANGED <<G, q, log, left, setl, nxt>>
Quiet == left = {} /\ Len(setl) = NSettle /\ wait = {} /\ \A b \in B : q[b] = <<>>
Next == Emit \/ Settle \/ Treat \/ Answer \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Got(b, d) == {log[b][d][i] : i \in DOMAIN log[b][d]}
Want(id, b, d) == {<<id, v>> : v \in For(G, Em(id), [k |-> "tap", b |-> b, d |-> d, n |-> 0])}
\* each path once, nothing else
Once == \A b \in B, d \in D : Cardinality(Got(b, d)) = Len(log[b][d]) /\ Got(b, d) \subseteq UNION {Want(id, b, d) : id \in Ems \ left}
All == Quiet => \A b \in B, d \in D, id \in Ems : Want(id, b, d) \subseteq Got(b, d)
Fifo == \A b \in B, d \in D : \A i, j \in DOMAIN log[b][d] : i < j /\ log[b][d][i][2] = log[b][d][j][2] => log[b][d][i][1] < log[b][d][j][1]
SettleOk == \A x \in {setl[i] : i \in DOMAIN setl} : x.tok \in done /\ x.b = 1 => \A id \in x.ids, b \in B, d \in D :
   {<<id, v>> : v \in Settled(G, Em(id), [k |-> "tap", b |-> b, d |-> d, n |-> 0])} \subseteq Got(b, d)
=============================================================================
