------------------------------ MODULE TimerMC -------------------------------
(* The timer's loop as it is implemented, on a machine which is late at any *)
(* time, with brokers of those who asked which get their messages later.    *)
EXTENDS Timer, FiniteSets
CONSTANTS T, M, K
VARIABLES clock, n, min, q, since, got
vars == <<clock, n, min, q, since, got>>
\* n: ticks; min: the counter of the loop; q: what is under way to each of those who asked; since: when they asked (-1: not); got: what they got
Subs == 1..K
Kind(s) == <<"second", "minute", "raw">>[s]
Init == clock = 0 /\ n = 0 /\ min = 0 /\ q = [s \in Subs |-> <<>>] /\ since = [s \in Subs |-> -1] /\ got = [s \in Subs |-> <<>>]
Pass == clock < T /\ clock' = clock + 1 /\ UNCHANGED <<n, min, q, since, got>>
Tick == /\ n < clock + 1 /\ n' = n + 1 /\ min' = (IF min + 1 = M THEN 0 ELSE min + 1) /\ UNCHANGED <<clock, since, got>>
        /\ q' = [s \in Subs |-> IF since[s] < 0 THEN q[s] ELSE q[s] \o (IF Secs(Kind(s)) THEN <<1>> ELSE <<>>) \o (IF Mins(Kind(s)) /\ min + 1 = M THEN <<2>> ELSE <<>>)]
Ask == \E s \in Subs : since[s] < 0 /\ since' = [since EXCEPT ![s] = n] /\ UNCHANGED <<clock, n, min, q, got>>
Get == \E s \in Subs : q[s] # <<>> /\ got' = [got EXCEPT ![s] = Append(@, Head(q[s]))] /\ q' = [q EXCEPT ![s] = Tail(@)] /\ UNCHANGED <<clock, n, min, since>>
Next == Pass \/ Tick \/ Ask \/ Get
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ WF_vars(Get) /\ WF_vars(Pass)
RECURSIVE Flat(_, _)
Flat(r, i) == IF i > Len(r) THEN <<>> ELSE (IF i > 1 THEN <<2>> ELSE <<>>) \o [j \in 1..r[i] |-> 1] \o Flat(r, i + 1)
\* exactly what is to be told, in order
Exact == \A s \in Subs : since[s] >= 0 => got[s] \o q[s] = Flat(Told(Kind(s), since[s], n, M), 1)
NotEarly == n <= Due(0, 1, clock)
\* whatever was late is caught up
CatchUp == \A c \in 0..T : (clock = c) ~> (n >= Due(0, 1, c))
All == <>(\A s \in Subs : q[s] = <<>> /\ n = T + 1)
=============================================================================
