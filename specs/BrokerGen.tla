------------------------------ MODULE BrokerGen -----------------------------
(* Random histories: graphs of brokers, subscribers coming and going,       *)
(* bursts of messages from several tasks, settling.                         *)
EXTENDS Broker, TLC, Json, Randomization, FiniteSetsExt
VARIABLES sh, st, hist, nn, lab, id, done
vars == <<sh, st, hist, nn, lab, id, done>>
R(S) == RandomElement(S)
Shapes == [nb: 1..4, mt: BOOLEAN, lim: 1..2, ops: {14, 20}]
MaxArr == 30
Fits(s2) == \A b \in s2.alive, d \in {"i", "o"} : Cardinality(Arr(Graph(s2), 0, b, d, <<>>, {}, 0)) <= MaxArr
Do(o) == st' = After(st, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<sh, done>>
Keep == UNCHANGED <<nn, lab, id>>
Taps == {s \in st.subs : s.k = "tap" /\ s.n \notin st.gone}
Live == {s \in st.subs : s.n \notin st.gone}
Dirs == {"i", "o"}
NewTap(b, d, y) == [b |-> b, d |-> d, n |-> nn, sync |-> y]
Emission(i, b, d, h, x) == [a |-> "emit", id |-> i, b |-> b, d |-> d, dst |-> IF x <= 7 THEN "all" ELSE IF x = 8 /\ h # 0 /\ d = "i" THEN "handled" ELSE IF x = 9 THEN "notap" ELSE "all", h |-> h]
\* everything about act number i of a burst comes from one random record
Act(i, r) ==
  LET hb == {h.n : h \in {x \in st.hands : x.b = r.b}} IN
  IF r.w <= 16 THEN Emission(id + i, r.b, r.d, IF hb = {} THEN 0 ELSE Min(hb), r.x)
  ELSE IF r.w <= 18 THEN [a |-> "yield"]
  ELSE IF r.w = 19 THEN [a |-> "settle", b |-> r.b]
  ELSE IF r.w = 20 /\ nn + i < 90 THEN [a |-> "sub", b |-> r.b, d |-> r.d, n |-> nn + i, sync |-> r.y]
  ELSE IF r.w = 21 /\ {s.n : s \in Taps} # {} THEN [a |-> "rmx", n |-> 0]
  ELSE [a |-> "yield"]
RECURSIVE RSeq(_, _)
RSeq(S, n) == IF n = 0 THEN <<>> ELSE Append(RSeq(S, n - 1), R(S))
Rec == [w: 1..21, b: st.alive, d: Dirs, x: 1..10, y: BOOLEAN]
\* at most one removal in a burst: the last one asked for
FixRm(q, n) == [i \in DOMAIN q |-> IF q[i].a = "rmx" THEN (IF n # 0 /\ \A j \in DOMAIN q : j < i => q[j].a # "rmx" THEN [a |-> "rm", n |-> n] ELSE [a |-> "yield"]) ELSE q[i]]
Burst == \E nt \in {R(1..3)}, len \in {R(1..5)}, ns \in {R(0..3)}, vic \in {IF Taps = {} THEN 0 ELSE R(Taps).n} :
  \E rs \in {RSeq(Rec, nt * len)}, ss \in {RSeq([b: st.alive, k: {"settle", "in", "out"}], ns)} :
    LET acts == FixRm([i \in 1..(nt * len) |-> Act(i, rs[i])], IF sh.mt THEN 0 ELSE vic)
        tasks == [t \in 1..nt |-> [i \in 1..len |-> acts[((t - 1) * len) + i]]]
        o == [op |-> "burst", tasks |-> tasks, settles |-> [i \in 1..ns |-> [b |-> ss[i].b, k |-> ss[i].k, id |-> id + (nt * len) + i]]]
    IN /\ Do(o) /\ id' = id + (nt * len) + ns + 1 /\ nn' = (IF \E a \in Acts(o) : a.a = "sub" THEN nn + (nt * len) + 1 ELSE nn) /\ lab' = lab
Some == \E w \in {IF Len(hist) < 8 + (IF sh.mt THEN 2 * sh.nb ELSE 0) THEN R(3..12) ELSE R(1..20)}, b \in {R(st.alive)}, t \in {R(st.alive)}, d \in {R(Dirs)}, y \in {R(BOOLEAN)}, x \in {R(1..8)} :
  \/ w \in 1..3 /\ nn < 90 /\ Do([op |-> "sub"] @@ NewTap(b, d, y)) /\ nn' = nn + 1 /\ UNCHANGED <<lab, id>>
  \/ w \in 4..5 /\ nn < 90 /\ Cardinality(st.hands) < 3 /\ \E o \in {[op |-> "hand", b |-> b, n |-> nn, outs |-> x % 3, slow |-> y]} : Fits(After(st, o)) /\ Do(o) /\ nn' = nn + 1 /\ UNCHANGED <<lab, id>>
  \/ w \in 6..10 /\ lab < 80 /\ \E api \in {<<"ii", "io", "oi", "oo", "link", "direct", "bi", "dir">>[x]}, flt \in {R({0, 0, 0, 1, 2})} :
       \E o \in {[op |-> "link", api |-> api, f |-> b, t |-> t, lab |-> lab, flt |-> flt]} :
         /\ \A l \in st.links : l.lab \notin {m.lab : m \in Made(o)}
         /\ Fits(After(st, o)) /\ Do(o) /\ lab' = lab + 2 /\ UNCHANGED <<nn, id>>
  \/ w = 11 /\ \E l \in st.links : l.lab < 90 /\ l.lab % 2 = 1 /\ Do([op |-> "unlink", b |-> l.f, n |-> l.lab]) /\ Keep
  \/ w = 12 /\ Live # {} /\ \E s \in {R(Live)} : Do([op |-> "rm", b |-> s.b, n |-> s.n]) /\ Keep
  \/ w = 13 /\ Taps # {} /\ \E s \in {R(Taps)} : Do([op |-> "close", n |-> s.n]) /\ Keep
  \/ w = 14 /\ Cardinality(st.alive) > 1 /\ (\A l \in st.links : l.t # b) /\ Do([op |-> "end", b |-> b, d |-> d, ids |-> [i \in 1..(x - 1) |-> id + i]]) /\ id' = id + 9 /\ UNCHANGED <<nn, lab>>
  \/ w \in 15..20 /\ Burst
Init == /\ sh \in Shapes /\ done = FALSE /\ lab = 1 /\ id = 1
        /\ \E p \in {TRUE, FALSE} : LET n == IF p \/ sh.mt THEN 2 * sh.nb ELSE 0
             pr == [i \in 1..n |-> [op |-> "sub", b |-> (i + 1) \div 2, d |-> IF i % 2 = 1 THEN "i" ELSE "o", n |-> i, sync |-> FALSE]] IN
             /\ hist = pr /\ nn = n + 1
             /\ st = [Fresh(sh.nb, sh.lim) EXCEPT !.subs = {Tap(pr[i]) : i \in 1..n}]
N == sh.ops + (IF sh.mt THEN 2 * sh.nb ELSE 4)
Step == Len(hist) < N /\ Some
Pad == Len(hist) < N /\ R(1..2) = 1 /\ Burst
Finish == Len(hist) >= N /\ ~done /\ done' = TRUE /\ PrintT(ToJsonObject([shape |-> sh, ops |-> hist])) /\ UNCHANGED <<sh, st, hist, nn, lab, id>>
Next == Step \/ Pad \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
