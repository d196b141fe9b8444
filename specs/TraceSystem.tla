----------------------------- MODULE TraceSystem ----------------------------
(* Whole nodes with a network which is cut and loses messages. (C30)        *)
EXTENDS System, Sequences, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* said: who said what; newest: of what was ever put; ever: started once;
\* even: since the last calm, nothing has been cut, stopped, or lost
VARIABLES t, k, y, cut, said, newest, even
vars == <<t, k, y, cut, said, newest, even>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
n == c.n
Nodes == 1..n
w == [i \in Nodes |-> ToSet(c.without[i])]
p(i) == o.seen[i]
net2 == {<<x[1], x[2]>> : x \in ToSet(o.net)}
up2 == {i \in Nodes : p(i).up}
once(q) == Cardinality(ToSet(q)) = Len(q)
\* ---- what is seen
Obs == [up |-> up2, net |-> net2,
        ch |-> [i \in Nodes |-> IF i \in up2 THEN {x[1] : x \in ToSet(p(i).chats)} ELSE y.ch[i]],
        inf |-> [i \in Nodes |-> IF i \in up2 /\ Gossips(w, i) THEN ToSet(p(i).infos.l) ELSE y.inf[i]],
        fl |-> [i \in Nodes |-> IF i \in up2 THEN [f \in Flos |-> LET V == {x[2] : x \in {z \in ToSet(p(i).flos) : z[1] = f}} IN IF V = {} THEN -1 ELSE CHOOSE v \in V : TRUE] ELSE y.fl[i]]]
said2 == IF o.op = "say" /\ Gossips(w, o.i) THEN [m \in DOMAIN said \cup {o.m} |-> IF m = o.m THEN o.i ELSE said[m]] ELSE said
newest2 == IF o.op = "put" /\ Has(w, o.i, "router") /\ Has(w, o.i, "storage") THEN [newest EXCEPT ![o.f] = Max2(@, o.v)] ELSE newest
\* ---- the step itself, before others hear of it
Base == CASE o.op = "start" -> Start(w, y, o.i)
          [] o.op = "stop" -> Stop(y, o.i)
          [] o.op = "cut" -> Cut(y, o.i, o.j)
          [] o.op = "say" -> Say(w, y, o.i, o.m)
          [] o.op = "put" -> Store(w, y, o.i, o.f, o.v)
          [] OTHER -> y
\* even if a node has not got the realm itself, it passes a new Flo on
Put1 == IF o.op = "put" THEN [[f \in Flos |-> -1] EXCEPT ![o.f] = o.v] ELSE NoFlos
\* everything anybody might have heard of: over all the connections there have been
Wide == [Base EXCEPT !.net = y.net \cup net2]
Routers == {i \in up2 : Has(w, i, "router")}
WideFlos(i) == IF i \in Routers THEN LET G == Reach(Wide.net, Routers, {i}) IN Newest({Base.fl[j] : j \in G} \cup (IF o.op = "put" /\ o.i \in G THEN {Put1} ELSE {})) ELSE Base.fl[i]
Up(i) ==
  /\ ToSet(p(i).chats) = {<<m, said2[m]>> : m \in Obs.ch[i]} /\ once(p(i).chats)
  /\ once(p(i).flos) /\ \A x \in ToSet(p(i).flos) : x[1] \in Flos /\ Cardinality({z \in ToSet(p(i).flos) : z[1] = x[1]}) = 1
  /\ \A f \in Flos : Obs.fl[i][f] >= 0 => Obs.fl[i][RootOf(f)] >= 0
  \* nothing gets lost, nothing is there which could not have been heard
  /\ Base.ch[i] \subseteq Obs.ch[i] /\ Obs.ch[i] \subseteq Chats(w, Wide, i)
  /\ Base.inf[i] \subseteq Obs.inf[i] /\ Obs.inf[i] \subseteq Infos(w, Wide, i)
  /\ AtLeast(Obs.fl[i], Base.fl[i]) /\ AtLeast(WideFlos(i), Obs.fl[i])
  \* what a node shows of its connections, and of the parts it has
  /\ p(i).stat.ok = Has(w, i, "stat") /\ (Has(w, i, "stat") => once(p(i).stat.l) /\ ToSet(p(i).stat.l) = {j \in Nodes : Linked(net2, i, j)})
  /\ p(i).infos.ok = Gossips(w, i) /\ once(p(i).infos.l)
  /\ p(i).con.ok = Gossips(w, i) /\ once(p(i).con.l) /\ ToSet(p(i).con.l) \subseteq Obs.inf[i]
  /\ p(i).online.ok = Gossips(w, i) /\ once(p(i).online.l) /\ ToSet(p(i).online.l) \subseteq Obs.inf[i] \ {i}
\* ---- once everything has been made up for
Even == /\ \A i \in up2 : Obs.ch[i] = Chats(w, Obs, i) /\ Obs.inf[i] = Infos(w, Obs, i) /\ Obs.fl[i] = Stored(w, Obs, i)
        /\ \A i \in Talkers(w, Obs) : /\ ToSet(p(i).con.l) = {j \in Obs.inf[i] : Linked(net2, i, j)}
                                      /\ (up2 \ {i}) \cap Obs.inf[i] \subseteq ToSet(p(i).online.l)
        \* who can reach everybody does not stay alone (otherwise, it might go on trying the wrong one)
        /\ \A i \in up2 : (Has(w, i, "rand") /\ up2 # {i} /\ \A q \in cut : i \notin {q[1], q[2]}) => \E j \in Nodes : Linked(net2, i, j)
Answers == LET a == ToSet(o.ans) IN
  IF o.op = "read" /\ Stores(w, o.i) /\ y.fl[o.i][o.f] >= 0 THEN o.ans = <<<<o.f, y.fl[o.i][o.f]>>>>
  ELSE \A x \in a : x[1] = o.f /\ x[2] \in -1..newest[o.f]
Quiets == {"say", "put", "read", "prop", "sync", "list", "ticks", "minutes", "calm"}
cut2 == CASE o.op = "cut" -> cut \cup {<<o.i, o.j>>} [] o.op = "mend" -> cut \ {<<o.i, o.j>>, <<o.j, o.i>>} [] OTHER -> cut
Judge == /\ up2 = Base.up
         /\ \A x \in net2 : {x[1], x[2]} \subseteq up2 /\ x[1] < x[2] /\ <<x[1], x[2]>> \notin cut2 /\ <<x[2], x[1]>> \notin cut2
         /\ o.ok = (o.op # "say" \/ Gossips(w, o.i))
         /\ \A i \in up2 : Up(i)
         /\ Answers
         /\ o.op = "calm" => Even
         \* everybody who can hears of something new at once
         /\ (o.op = "say" /\ even /\ net2 = y.net) => \A i \in up2 : Obs.ch[i] = Chats(w, Base, i)
Init == t \in 1..Len(Traces) /\ k = 0 /\ y = Fresh(Traces[t].cfg.n) /\ cut = {} /\ said = <<>> /\ newest = NoFlos /\ even = FALSE
Next == \/ /\ k < Len(S) /\ Judge
           /\ k' = k + 1 /\ t' = t /\ y' = Obs /\ cut' = cut2 /\ said' = said2 /\ newest' = newest2
           /\ even' = (o.op = "calm" \/ (even /\ o.op \in Quiets /\ net2 = y.net))
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
