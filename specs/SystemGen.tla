------------------------------ MODULE SystemGen -----------------------------
EXTENDS System, Sequences, SequencesExt, Json, TLC
Parts == {"rand", "gossip", "router", "storage", "stat"}
VARIABLES n, ops, w, rng, hist, up, cut, chat, vers, held, done
vars == <<n, ops, w, rng, hist, up, cut, chat, vers, held, done>>
R(S) == RandomElement(S)
Nodes == 1..n
Do(o) == hist' = Append(hist, o)
Same == UNCHANGED <<up, cut, chat, vers, held>>
StartOne == \E i \in {R(Nodes \ up)} : Do([op |-> "start", i |-> i]) /\ up' = up \cup {i} /\ UNCHANGED <<cut, chat, vers, held>>
StopOne == \E i \in {R(up)} : Do([op |-> "stop", i |-> i]) /\ up' = up \ {i} /\ UNCHANGED <<cut, chat, vers, held>>
CutOne == \E i \in {R(Nodes)} : \E j \in {R(Nodes \ {i})} : Do([op |-> "cut", i |-> i, j |-> j]) /\ cut' = cut \cup {<<i, j>>} /\ UNCHANGED <<up, chat, vers, held>>
MendOne == \E p \in {R(cut)} : Do([op |-> "mend", i |-> p[1], j |-> p[2]]) /\ cut' = {q \in cut : {q[1], q[2]} # {p[1], p[2]}} /\ UNCHANGED <<up, chat, vers, held>>
SayOne == \E i \in {R(up)} : Do([op |-> "say", i |-> i, m |-> chat + 1]) /\ chat' = chat + 1 /\ UNCHANGED <<up, cut, vers, held>>
\* mostly something which gets stored
PutOne == \E i \in {R(up)} : \E f \in {R(IF held[i] = {} /\ R(1..8) # 1 THEN Roots ELSE IF R(1..8) = 1 THEN Flos ELSE {f \in Flos : held[i] = {} \/ RootOf(f) \in held[i]})} :
   \E v \in {IF f \in Roots THEN 0 ELSE IF R(1..5) = 1 THEN R(0..3) ELSE IF vers[f] < 3 THEN vers[f] + 1 ELSE 3} :
     Do([op |-> "put", i |-> i, f |-> f, v |-> v]) /\ vers' = [vers EXCEPT ![f] = Max2(@, v)] /\ held' = [held EXCEPT ![i] = IF f \in Roots THEN @ \cup {f} ELSE @] /\ UNCHANGED <<up, cut, chat>>
Read == \E i \in {R(up)} : Do([op |-> "read", i |-> i, f |-> R(Flos)]) /\ Same
Prop == \E i \in {R(up)} : Do([op |-> R({"prop", "sync"}), i |-> i]) /\ Same
Calm1 == Do([op |-> "calm"]) /\ held' = [i \in Nodes |-> IF i \in up THEN UNION {held[j] : j \in up} ELSE held[i]] /\ UNCHANGED <<up, cut, chat, vers>>
One == \E x \in {R(1..40)} :
  IF up = {} \/ (Cardinality(up) < n /\ (x <= 6 \/ Len(hist) < n)) THEN StartOne
  ELSE IF x <= 7 THEN StopOne
  ELSE IF x <= 10 THEN CutOne
  ELSE IF x <= 12 THEN IF cut = {} THEN Do([op |-> "list"]) /\ Same ELSE MendOne
  ELSE IF x <= 18 THEN IF chat < 15 THEN SayOne ELSE Read
  ELSE IF x <= 26 THEN PutOne
  ELSE IF x <= 29 THEN Read
  ELSE IF x <= 31 THEN Prop
  ELSE IF x <= 34 THEN Do([op |-> "ticks", m |-> R({1, 2, 4})]) /\ Same
  ELSE IF x <= 35 THEN Do([op |-> "minutes", m |-> R({1, 1, 2, 10, 31})]) /\ Same
  ELSE IF x <= 37 THEN Do([op |-> "loss", m |-> R({0, 1, 2, 3})]) /\ Same
  ELSE Calm1
Init == /\ n \in 2..5 /\ ops \in {10, 18, 28} /\ rng = 0 /\ w = <<>> /\ hist = <<>> /\ up = {} /\ cut = {} /\ chat = 0
        /\ vers = NoFlos /\ held = [i \in 1..n |-> {}] /\ done = FALSE
Choose == /\ w = <<>> /\ \E few \in {R(1..3)} : w' = [i \in Nodes |-> IF few = 1 /\ R(1..2) = 1 THEN {R(Parts)} \cup (IF R(1..3) = 1 THEN {R(Parts)} ELSE {}) ELSE {}]
          /\ rng' = R(1..1000000) /\ UNCHANGED <<n, ops, hist, up, cut, chat, vers, held, done>>
Step == w # <<>> /\ Len(hist) < ops /\ One /\ UNCHANGED <<n, ops, w, rng, done>>
Finish == /\ Len(hist) = ops /\ ~done /\ done' = TRUE
          /\ PrintT(ToJsonObject([n |-> n, rng |-> rng, without |-> [i \in Nodes |-> SetToSeq(w[i])], ops |-> Append(hist, [op |-> "calm"])]))
          /\ UNCHANGED <<n, ops, w, rng, hist, up, cut, chat, vers, held>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
