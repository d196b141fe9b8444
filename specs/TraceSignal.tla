----------------------------- MODULE TraceSignal ----------------------------
(* Recorded histories of one real signalling server, judged by $PROP:       *)
(* C15 who is treated as which node, C16 what is relayed and listed.        *)
EXTENDS Signal, FiniteSetsExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, k, st
vars == <<t, k, st>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Els(s) == {s[i] : i \in 1..Len(s)}
NoDup(q) == Cardinality(Els(q)) = Len(q)
Pick(kind) == SelectSeq(o.outs, LAMBDA x : x.k = kind)
New == After(st, o, c.ttl)
Ok == o.op = "ann" /\ Valid(st, o)
C15 ==
  /\ Pick("new") = IF Ok THEN <<[k |-> "new", n |-> o.n]>> ELSE <<>>
  /\ Pick("challenge") = IF o.op = "new" THEN <<[k |-> "challenge", c |-> o.c, fresh |-> TRUE]>> ELSE <<>>
  /\ \A x \in Els(Pick("setup")) : o.op = "setup" /\ NodeOf(st, o.c) \in {o.i, o.j} \ {0} /\ x.c \in Bound(st)
  /\ \A x \in Els(Pick("config")) : x.c \in Bound(New)
  /\ \A x \in Els(Pick("list")) : x.c \in Bound(New) \/ (o.op = "list" /\ x.c = o.c)
  /\ \A x \in Els(Pick("list")) : Els(x.l) \subseteq DOMAIN New.own
  /\ \A x \in Els(Pick("error")) : Ok /\ o.n \in DOMAIN st.own /\ x.c = st.own[o.n]
  /\ \A x \in Els(Pick("close")) : (Ok /\ o.n \in DOMAIN st.own /\ x.c = st.own[o.n]) \/ x.c \in DOMAIN st.silent \ DOMAIN New.silent
  /\ Pick("other") = <<>>
  /\ o.op = "setup" => LET f == Forward(st, o.c, o.i, o.j) IN f = 0 => o.outs = <<>>
  /\ o.op \in {"junk", "bye", "tick"} => \A x \in Els(o.outs) : x.k = "close"
C16 ==
  /\ Pick("setup") = IF o.op = "setup" /\ Forward(st, o.c, o.i, o.j) # 0
                     THEN <<[k |-> "setup", c |-> Forward(st, o.c, o.i, o.j), i |-> o.i, j |-> o.j, r |-> o.r, m |-> o.m]>> ELSE <<>>
  /\ \A x \in Els(Pick("list")) : NoDup(x.l) /\ Els(x.l) \subseteq DOMAIN New.own
  /\ o.op = "list" => /\ Len(o.outs) = 1 /\ Len(Pick("list")) = 1
                      /\ LET x == Pick("list")[1] IN x.c = o.c /\ Len(x.l) = IF c.max = 0 THEN Cardinality(DOMAIN New.own) ELSE Min({c.max, Cardinality(DOMAIN New.own)})
  /\ Ok => /\ Pick("config") = <<[k |-> "config", c |-> o.c, ok |-> TRUE]>>
           /\ \A x \in Bound(New) \ {o.c} : \E y \in Els(Pick("list")) : y.c = x /\ (o.n \in Els(y.l) \/ c.max # 0)
           /\ o.n \in DOMAIN st.own /\ st.own[o.n] # o.c => \E x \in Els(Pick("error")) \cup Els(Pick("close")) : x.c = st.own[o.n]
  /\ Pick("stats") = IF o.op = "stats" THEN <<[k |-> "stats", m |-> o.m]>> ELSE <<>>
  /\ o.op \in {"ann", "list"} \/ Pick("list") = <<>>
Judge == CASE PROP = "C15" -> C15 [] PROP = "C16" -> C16
Ops == {"new", "ann", "list", "setup", "bye", "stats", "junk", "tick"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ st = Fresh
Next == \/ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE /\ k' = k + 1 /\ t' = t /\ st' = New
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
