--------------------------- MODULE TraceRandomConn --------------------------
(* Recorded histories of one real random-connections module and the routers *)
(* above it and above the network. $PROP: C12 the lists, C14 the routers.   *)
EXTENDS RandomConn, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
\* st: the lists, w: ticks without asking although needed, I: infos, av, con: of the router above the network
VARIABLES t, k, st, w, I, av, con, ns
vars == <<t, k, st, w, I, av, con, ns>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Ops == {"list", "con", "disc", "msg", "drop", "fail", "send", "junk", "config", "tick", "state"}
NoDup(q) == Cardinality(Els(q)) = Len(q)
Pick(q, kind) == SelectSeq(q, LAMBDA x : x.k = kind)
AllOf(q, kind) == Els(Pick(q, kind))
S2 == After(st, o)
ConSeq == Pick(o.net, "connect")
ConS == {x.t : x \in Els(ConSeq)}
New == Asked(S2, ConS)
\* w counts ticks at which more connections were needed and possible, and none was asked for
W2 == IF ConS # {} \/ ~Waiting(c, New) THEN 0 ELSE IF o.op = "tick" THEN w + 1 ELSE w
C12 ==
  /\ NoDup(ConSeq) /\ AskOK(c, S2, o.op, ConS) /\ W2 < 10 /\ ListsOK(New)
  /\ o.op = "tick" => /\ NoDup(o.C) /\ NoDup(o.X) /\ NoDup(o.K)
                      /\ Els(o.C) = New.C /\ Els(o.X) = New.X /\ Els(o.K) = New.K
  /\ \A u \in AllOf(o.rnd, "ids") : NoDup(u.l) /\ Els(u.l) = New.C
  /\ o.op \in {"con", "disc", "fail", "tick"} => AllOf(o.rnd, "ids") # {}
  /\ Pick(o.net, "send") = IF o.op = "send" /\ o.f \in st.C THEN <<[k |-> "send", t |-> o.f, m |-> o.m]>> ELSE <<>>
  /\ Pick(o.rnd, "msg") = IF o.op = "msg" THEN <<[k |-> "msg", f |-> o.f, m |-> o.m]>> ELSE <<>>
  /\ \A x \in AllOf(o.net, "disconnect") : o.op \in {"fail", "drop"} /\ x.t = o.f
  /\ o.op \in {"fail", "drop"} => AllOf(o.net, "disconnect") # {}
  /\ AllOf(o.net, "other") = {}
I2 == Infos(I, o)
\* ---- the router above the network: all it ever says is true
Av2 == IF o.op = "list" THEN o.l ELSE av
Con2 == CASE o.op \in {"con", "msg", "junk", "drop"} -> con \cup {o.f} [] o.op = "disc" -> con \ {o.f} [] OTHER -> con
InCon(q) == SelectSeq(q, LAMBDA x : x[1] \in Con2)
Changed == Con2 # con
Lists == {"avail", "ids", "infos"}
IsList(x) == x.k \in Lists
FirstOther(q) == IF \E i \in 1..Len(q) : ~IsList(q[i]) THEN Min({i \in 1..Len(q) : ~IsList(q[i])}) ELSE Len(q) + 1
Event == (IF Changed THEN <<[k |-> IF o.op = "disc" THEN "disc" ELSE "con", f |-> o.f]>> ELSE <<>>)
         \o (IF o.op \in {"msg", "junk", "drop"} THEN <<[k |-> "msg", f |-> o.f, m |-> o.m]>> ELSE <<>>)
         \o (IF o.op = "config" THEN <<[k |-> "config", m |-> o.m]>> ELSE <<>>)
C14Net ==
  /\ \A u \in AllOf(o.rn, "avail") : u.l = Av2
  /\ \A u \in AllOf(o.rn, "ids") : NoDup(u.l) /\ Els(u.l) = Con2
  /\ \A u \in AllOf(o.rn, "infos") : NoDup(u.l) /\ Els(u.l) = Els(InCon(Av2))
  /\ o.op = "list" => AllOf(o.rn, "avail") # {}
  /\ Changed => AllOf(o.rn, "ids") # {}
  /\ Changed \/ Els(InCon(Av2)) # Els(SelectSeq(av, LAMBDA x : x[1] \in con)) => AllOf(o.rn, "infos") # {}
  \* the lists come before the events they belong to
  /\ \A i \in 1..Len(o.rn) : IsList(o.rn[i]) => i < FirstOther(o.rn)
  /\ SelectSeq(o.rn, LAMBDA x : ~IsList(x)) = Event
  /\ o.rnet = IF o.op = "send" THEN <<[k |-> "send", t |-> o.f, m |-> o.m]>> ELSE <<>>
C14Rnd ==
  /\ o.rr = o.rnd
  /\ \A u \in AllOf(o.rr, "ids") : NoDup(u.l) /\ Els(u.l) = New.C
  /\ \A u \in AllOf(o.rr, "infos") : NoDup(u.l) /\ Els(u.l) = {<<i, I2[i]>> : i \in New.C \cap DOMAIN I2}
  /\ Pick(o.rr, "msg") = IF o.op = "msg" THEN <<[k |-> "msg", f |-> o.f, m |-> o.m]>> ELSE <<>>
  /\ o.op \in {"con", "disc", "fail", "tick"} => AllOf(o.rr, "ids") # {} /\ AllOf(o.rr, "infos") # {}
  /\ Pick(o.net, "send") = IF o.op = "send" /\ o.f \in st.C THEN <<[k |-> "send", t |-> o.f, m |-> o.m]>> ELSE <<>>
\* ---- the statistics of the network: what it last said, ns = [con, s: id -> step of the last state, all: all infos]
Ns2 == [con |-> CASE o.op = "con" -> ns.con \cup {o.f} [] o.op = "disc" -> ns.con \ {o.f} [] OTHER -> ns.con,
        s |-> IF o.op = "state" THEN [i \in DOMAIN ns.s \cup {o.f} |-> IF i = o.f THEN o.m ELSE ns.s[i]] ELSE ns.s,
        all |-> IF o.op # "list" THEN ns.all ELSE
          LET ids == {x[1] : x \in Els(o.l)} IN {x \in ns.all : x[1] \notin ids} \cup {o.l[Max({j \in 1..Len(o.l) : o.l[j][1] = i})] : i \in ids}]
C14Stat == LET x == o.stat IN
  /\ x.online = [i \in 1..Len(Av2) |-> Av2[i][1]]
  /\ Els(x.con) = Ns2.con
  /\ Els(x.infos) = Ns2.all /\ Els(x.keys) = {y[1] : y \in Ns2.all} /\ NoDup(x.keys)
  /\ Els(x.conInfos) = {y \in Ns2.all : y[1] \in Ns2.con}
  /\ Els(x.states) = {<<i, Ns2.s[i], Ns2.s[i] % 2 = 0>> : i \in DOMAIN Ns2.s}
  /\ o.op \in {"list", "con", "disc", "state"} => x.fresh
Judge == CASE PROP = "C12" -> C12 [] PROP = "C14" -> C14Net /\ C14Rnd /\ C14Stat
Init == t \in 1..Len(Traces) /\ k = 0 /\ st = Empty /\ w = 0 /\ I = [i \in {} |-> 0] /\ av = <<>> /\ con = {} /\ ns = [con |-> {}, s |-> [i \in {} |-> 0], all |-> {}]
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE
           /\ k' = k + 1 /\ t' = t /\ st' = New /\ w' = W2 /\ I' = I2 /\ av' = Av2 /\ con' = Con2 /\ ns' = Ns2
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
