----------------------------- MODULE NodeConnMC -----------------------------
(* Two nodes: texts 1..TX of up to PX packets are sent by one, the channels *)
(* come and go, packets under way overtake each other or get lost.          *)
EXTENDS NodeConn
CONSTANTS TX, PX, EV
VARIABLES of, a, b, sent, net, lost, out, next, ev
vars == <<of, a, b, sent, net, lost, out, next, ev>>
Packets(x) == [p \in 1..of[x] |-> <<x, p, of[x]>>]
RECURSIVE All(_)
All(q) == IF q = <<>> THEN <<>> ELSE Packets(Head(q)) \o All(Tail(q))
Flush(c) == IF Opens(c) # {} /\ c.q # <<>> THEN a' = Flushed(c) /\ sent' = sent \o All(c.q) /\ net' = net \cup {All(c.q)[i] : i \in DOMAIN All(c.q)}
            ELSE a' = c /\ UNCHANGED <<sent, net>>
Text == next <= TX /\ Flush(Queue(a, next)) /\ next' = next + 1 /\ UNCHANGED <<of, b, lost, out, ev>>
Chan == ev < EV /\ ev' = ev + 1 /\ UNCHANGED <<of, b, lost, out, next>> /\ \E d \in {In, Out} :
   \/ Flush(Connected(a, d))
   \/ \E o \in BOOLEAN : a' = Reported(a, d, o, 1) /\ UNCHANGED <<sent, net>>
   \/ a' = Lost(a, d) /\ UNCHANGED <<sent, net>>
Deliver == \E y \in net :
   /\ net' = net \ {y} /\ b' = [b EXCEPT !.got = Take(@, y[1], y[2], y[3])]
   /\ out' = IF Delivers(b.got, y[1], y[2], y[3]) THEN Append(out, y[1]) ELSE out
   /\ UNCHANGED <<of, a, sent, lost, next, ev>>
Lose == \E y \in net : net' = net \ {y} /\ lost' = lost \cup {y[1]} /\ UNCHANGED <<of, a, b, sent, out, next, ev>>
Init == of \in [1..TX -> 1..PX] /\ a = New /\ b = New /\ sent = <<>> /\ net = {} /\ lost = {} /\ out = <<>> /\ next = 1 /\ ev = 0
Next == Text \/ Chan \/ Deliver \/ Lose
Spec == Init /\ [][Next]_vars
SentTexts == {sent[i][1] : i \in DOMAIN sent}
Once == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
Whole == \A i \in DOMAIN out : out[i] \in SentTexts \ lost
InOrder == \E n \in 0..TX : sent = All([i \in 1..n |-> i])
NoneMissing == net = {} => {out[i] : i \in DOMAIN out} = SentTexts \ lost
NothingKept == net = {} => {y[1] : y \in b.got} \subseteq lost
Accounted == SentTexts \cup {a.q[i] : i \in DOMAIN a.q} = 1..(next - 1)
=============================================================================
