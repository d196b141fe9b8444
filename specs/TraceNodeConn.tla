---------------------------- MODULE TraceNodeConn ---------------------------
(* Recorded histories of the peer connections of one real node; the        *)
(* channels below are simulated, the packets it receives are made by a real *)
(* node, those it sends are read by a real node. (C21)                      *)
EXTENDS NodeConn, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, C
vars == <<t, k, C>>
S == Traces[t].steps
o == S[k+1]
c == C[o.n]
\* packets given to channel d
Texts(d) == SelectSeq(o.ch[d], LAMBDA x : x.k = "text")
Others(d) == SelectSeq(o.ch[d], LAMBDA x : x.k # "text")
Ev(kind) == [k |-> kind, d |-> o.d]
St(d, s) == [k |-> "state", d |-> d, open |-> s.open, m |-> s.m]
(* the queue goes completely, in order, each packet once, through open channels *)
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Ahead(q, x, y) == IF x.t = y.t THEN x.p < y.p ELSE Pos(q, x.t) < Pos(q, y.t)
Flushes(s) ==
  LET P == {Texts(d)[i] : <<d, i>> \in {y \in {In, Out} \X (1..200) : y[2] <= Len(Texts(y[1]))}} IN
  /\ Opens(s) # {}
  /\ \A d \in {In, Out} : Texts(d) # <<>> => d \in Opens(s)
  /\ Len(Texts(In)) + Len(Texts(Out)) = Cardinality(P)
  /\ {x.t : x \in P} = {s.q[i] : i \in DOMAIN s.q}
  /\ \A x \in P : x.fits /\ {y.p : y \in {z \in P : z.t = x.t}} = 1..x.of
  /\ \A d \in {In, Out} : \A i \in 1..(Len(Texts(d)) - 1) : Ahead(s.q, Texts(d)[i], Texts(d)[i+1])
Silent == Texts(In) = <<>> /\ Texts(Out) = <<>>
\* in state s something is sent if it can, or only may be sent
Sends(s, must) == IF s.q # <<>> /\ Opens(s) # {} THEN \/ Flushes(s) /\ C' = [C EXCEPT ![o.n] = Flushed(s)]
                                                      \/ ~must /\ Silent /\ C' = [C EXCEPT ![o.n] = s]
                  ELSE Silent /\ C' = [C EXCEPT ![o.n] = s]
Keeps(s) == Silent /\ C' = [C EXCEPT ![o.n] = s]
Both(x, y) == Others(In) = x /\ Others(Out) = y
On(d, x) == Both(IF d = In THEN x ELSE <<>>, IF d = Out THEN x ELSE <<>>)
ChanOk == CASE o.what = "connected" -> Sends(Connected(c, o.d), TRUE) /\ o.up = <<Ev("connected")>> /\ Both(<<>>, <<>>)
            [] o.what \in {"disconnected", "error"} -> Keeps(Lost(c, o.d)) /\ o.up = <<Ev("disconnected")>> /\ On(o.d, <<[k |-> "reset"]>>)
            [] o.what = "state" -> LET s == Reported(c, o.d, o.r = 3, o.m) IN Sends(s, FALSE) /\ o.up = <<St(o.d, s.st[o.d])>> /\ Both(<<>>, <<>>)
            [] o.what = "setup" -> Keeps(c) /\ o.up = <<[k |-> "setup", d |-> o.d, r |-> o.r, m |-> o.m]>> /\ Both(<<>>, <<>>)
Known(d) == IF c.st[d].k = 1 THEN <<St(d, c.st[d])>> ELSE <<>>
SetupMsg(r, m) == <<[k |-> "setup", r |-> r, m |-> m]>>
InOk == CASE o.what = "setup" -> Keeps(IF o.d = Out THEN SetupOut(Ensure(c)) ELSE Ensure(c)) /\ o.up = <<>> /\ On(o.d, SetupMsg(o.r, o.m))
          [] o.what = "connect" -> Keeps(SetupOut(Ensure(c))) /\ o.up = <<>> /\ On(Out, SetupMsg(1, 0))
          [] o.what = "disconnect" \/ (o.what = "drop" /\ c.up) -> Keeps(Ensure(c)) /\ o.up = <<>> /\ Both(<<[k |-> "disconnect"]>>, <<[k |-> "disconnect"]>>)
          [] o.what = "drop" /\ ~c.up -> Keeps(c) /\ o.up = <<>> /\ Both(<<>>, <<>>)
          [] o.what = "states" -> Keeps(Ensure(c)) /\ o.up = Known(In) \o Known(Out) /\ Both(<<>>, <<>>)
Judge ==
  /\ o.stray = 0
  /\ CASE o.op = "text" -> Sends(Queue(c, o.t), TRUE) /\ o.up = <<>> /\ Both(<<>>, <<>>)
       [] o.op = "chan" -> ChanOk
       [] o.op = "in" -> InOk
       [] o.op = "peer" -> o.whole /\ o.fits /\ UNCHANGED C
       [] o.op = "deliver" -> /\ o.up = IF Delivers(c.got, o.t, o.p, o.of) THEN <<[k |-> "text", t |-> o.t]>> ELSE <<>>
                              /\ Both(<<>>, <<>>) /\ Keeps([c EXCEPT !.got = Take(@, o.t, o.p, o.of)])
       [] o.op = "bad" -> o.up = <<>> /\ Both(<<>>, <<>>) /\ Keeps(c)
Ops == {"text", "chan", "in", "peer", "deliver", "bad"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ C = <<New, New>>
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
