----------------------------- MODULE TraceTimer -----------------------------
(* Recorded histories of timers, intervals and of waiting. (C29)            *)
EXTENDS Timer, FiniteSets, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, tm, sub, iv
vars == <<t, k, tm, sub, iv>>
S == Traces[t].steps
o == S[k+1]
at == o.sees.at
\* tm: the timers [start, n]; sub: who asked [t, kind, in]; iv: intervals and waiting [kind, start, dur, n]
\* the clock of the runtime is of milliseconds, and what is due a moment ago may not have happened
Ticks(start, dur) == {Due(start, dur, at - 3), Due(start, dur, at - 2), Due(start, dur, at - 1), Due(start, dur, at), Due(start, dur, at + 1)}
\* the timers after this step
T2 == tm \o (IF o.op = "timer" THEN <<[start |-> o.from, n |-> 0]>> ELSE <<>>)
New == o.op \in {"sub", "timer"} /\ o.ok
Asked == IF o.op = "timer" THEN Len(T2) ELSE o.t
S2 == LET s == IF o.op = "leave" /\ o.s \in DOMAIN sub THEN [sub EXCEPT ![o.s].in = FALSE] ELSE sub IN
      s \o (IF New THEN <<[t |-> Asked, kind |-> o.kind, in |-> TRUE]>> ELSE <<>>)
N(i) == IF i \in DOMAIN tm THEN tm[i].n ELSE 0
Gets(i) == LET s == S2[i] g == o.sees.got[i] a == N(s.t) b == tm'[s.t].n IN
   IF ~s.in THEN g = <<0>>
   \* the first tick comes at once
   ELSE IF o.op = "timer" /\ i > Len(sub) THEN g \in {Told(s.kind, 0, b, 60), Told(s.kind, 1, b, 60)}
   ELSE g = Told(s.kind, a, b, 60)
I2 == iv \o (IF o.op = "interval" THEN <<[kind |-> "i", start |-> o.from + (IF o.new = 1 THEN 0 ELSE Most(o.off, 0)), dur |-> o.dur, n |-> 0]>>
             ELSE IF o.op = "wait" THEN <<[kind |-> "w", start |-> o.from + o.ms, dur |-> 0, n |-> 0]>> ELSE <<>>)
Fires(i) == LET x == I2[i] l == o.sees.logs[i] IN
   /\ iv'[i] = [x EXCEPT !.n = @ + Len(l)]
   /\ IF x.kind = "i" THEN x.n + Len(l) \in Ticks(x.start, x.dur) /\ \A j \in DOMAIN l : l[j] = (x.n + j - 1) * x.dur
      ELSE x.n + Len(l) <= 1 /\ (Len(l) = 1 => at + 1 >= x.start) /\ (at - 3 > x.start => x.n + Len(l) = 1)
Judge == /\ (o.op = "many" => o.fired = o.n)
         \* nothing is observed in the moment of a tick
         /\ tm' = [i \in DOMAIN T2 |-> [start |-> T2[i].start, n |-> Due(T2[i].start, 1000, at)]]
         /\ sub' = S2 /\ Len(o.sees.got) = Len(S2) /\ \A i \in DOMAIN S2 : Gets(i)
         /\ Len(o.sees.logs) = Len(I2) /\ iv' = [i \in DOMAIN I2 |-> [I2[i] EXCEPT !.n = @ + Len(o.sees.logs[i])]] /\ \A i \in DOMAIN I2 : Fires(i)
Ops == {"timer", "sub", "forget", "leave", "interval", "many", "wait", "pass", "stall", "freeze"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ tm = <<>> /\ sub = <<>> /\ iv = <<>>
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
