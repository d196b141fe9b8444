----------------------------- MODULE TraceBroker ----------------------------
(* Recorded histories of real brokers, judged by $PROP.                     *)
(* A burst records, per subscriber, what it got in order (logs: [n, l] with *)
(* l of [id, via]), whether all calls returned (ret), and for each settling *)
(* call what the subscribers had got when it returned (lens).               *)
EXTENDS Broker, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, k, st
vars == <<t, k, st>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
New == After(st, o)
G == Graph(st)
Log(n) == LET x == {y \in Elems(o.logs) : y.n = n} IN IF x = {} THEN <<>> ELSE (CHOOSE y \in x : TRUE).l
Pairs(l) == {<<l[i].id, l[i].via>> : i \in DOMAIN l}
Once(l) == Cardinality(Pairs(l)) = Len(l)
(* emissions of the burst, with the task they come from (0: a settling call after all tasks) and their position *)
IsEm(a) == a.a = "emit"
TaskEms == UNION {{[e |-> o.tasks[i][j], t |-> i, p |-> j] : j \in {x \in DOMAIN o.tasks[i] : IsEm(o.tasks[i][x])}} : i \in DOMAIN o.tasks}
SetEms == {[e |-> [id |-> o.settles[i].id, b |-> o.settles[i].b, d |-> IF o.settles[i].k = "in" THEN "i" ELSE "o", dst |-> "all", h |-> 0], t |-> 100 + i, p |-> 0] :
              i \in {x \in DOMAIN o.settles : o.settles[x].k # "settle"}}
Ems == TaskEms \cup SetEms
\* what a subscriber gets from a set of emissions
Of(E, s) == UNION {{<<x.e.id, v>> : v \in For(G, x.e, s)} : x \in E}
Direct(E, s) == {y \in Of(E, s) : y[2] = <<>>}
Where(kind, n) == {<<i, j>> \in UNION {{<<i, j>> : j \in DOMAIN o.tasks[i]} : i \in DOMAIN o.tasks} : o.tasks[i][j].a = kind /\ o.tasks[i][j].n = n}
Later(E, w) == {x \in E : x.t > 99 \/ (x.t = w[1] /\ x.p > w[2])}
Before(E, w) == {x \in E : x.t = w[1] /\ x.p < w[2]}
Touched == {a.n : a \in {x \in Acts(o) : x.a \in {"sub", "rm"}}}
Whole == {s \in st.subs : s.n \notin st.gone \cup Touched}
(* content *)
ExactOk == \A s \in Whole : LET l == Log(s.n) IN Once(l) /\ Pairs(l) = Of(Ems, s)
AttachedOk == \A s \in New.subs \ st.subs : LET l == Log(s.n) w == CHOOSE x \in Where("sub", s.n) : TRUE IN
   Once(l) /\ Pairs(l) \subseteq Of(Ems, s) /\ Of(Later(Ems, w), s) \subseteq Pairs(l)
RemovedOk == \A s \in st.subs : s.n \in New.gone \ st.gone => LET l == Log(s.n) w == CHOOSE x \in Where("rm", s.n) : TRUE IN
   Once(l) /\ Pairs(l) \subseteq Of(Ems \ Later(Ems, w), s) /\ Direct(Before(Ems, w), s) \subseteq Pairs(l)
GoneOk == \A n \in st.gone : Log(n) = <<>>
(* order *)
EmOf(id) == CHOOSE x \in Ems : x.e.id = id
Inverted(a, b) == a.via = b.via /\ LET x == EmOf(a.id) y == EmOf(b.id) IN x.t = y.t /\ x.e.b = y.e.b /\ x.e.d = y.e.d /\ x.p > y.p
OrderOk == \A y \in Elems(o.logs) : \A i, j \in DOMAIN y.l : i < j => ~Inverted(y.l[i], y.l[j])
Common(l, m) == SelectSeq(l, LAMBDA x : <<x.id, x.via>> \in Pairs(m))
AgreeOk == \A s, r \in New.subs : s.n < r.n /\ s.b = r.b /\ s.d = r.d => LET l == Log(s.n) m == Log(r.n) IN Common(l, m) = Common(m, l)
(* settling *)
Len0(x, n) == LET y == {z \in Elems(x) : z[1] = n} IN IF y = {} THEN 0 ELSE (CHOOSE z \in y : TRUE)[2]
SettleOk == \A i \in DOMAIN o.settles : LET x == o.settles[i] IN
   \A s \in Whole : LET got == Pairs(SubSeq(Log(s.n), 1, Len0(o.lens[i], s.n))) IN
     \A e \in {y \in Ems : y.e.b = x.b /\ (y.t < 99 \/ y.t = 100 + i)} : {<<e.e.id, v>> : v \in Settled(G, e.e, s)} \subseteq got
EndEms == {[e |-> [id |-> o.ids[i], b |-> o.b, d |-> o.d, dst |-> "all", h |-> 0], t |-> 1, p |-> i] : i \in DOMAIN o.ids}
EndContent == \A s \in st.subs \ {x \in st.subs : x.n \in st.gone} : LET l == Log(s.n) IN Once(l) /\ Pairs(l) = Of(EndEms, s)
EndOrder == \A y \in Elems(o.logs) : \A i, j \in DOMAIN y.l : i < j /\ y.l[i].via = y.l[j].via => y.l[i].id < y.l[j].id
EndClosed == \A s \in st.subs : s.b = o.b /\ s.n \notin st.gone /\ s.k = "tap" => s.n \in Elems(o.closed)
C19 == CASE o.op = "burst" -> o.ret /\ ExactOk /\ AttachedOk /\ RemovedOk /\ GoneOk /\ OrderOk /\ AgreeOk
         [] o.op = "end" -> EndContent /\ EndOrder /\ EndClosed
         [] OTHER -> o.ret
C20 == CASE o.op = "burst" -> o.ret /\ ExactOk /\ SettleOk
         [] o.op = "end" -> EndContent
         [] OTHER -> o.ret
Judge == CASE PROP = "C19" -> C19 [] PROP = "C20" -> C20
Ops == {"sub", "hand", "link", "unlink", "rm", "close", "burst", "end"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ st = Fresh(c.nb, c.lim)
Next == \/ k < Len(S) /\ o.op \in Ops /\ Judge = TRUE /\ k' = k + 1 /\ t' = t /\ st' = New
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
