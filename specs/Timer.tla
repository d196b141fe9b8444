-------------------------------- MODULE Timer -------------------------------
(* A timer ticks every second, the first time at once, and with every 60th  *)
(* second there is a minute after it. Time is in milliseconds.              *)
EXTENDS Integers, Sequences
Kinds == {"second", "minute", "tick_second", "tick_minute", "both", "raw"}
Secs(kind) == kind \notin {"minute", "tick_minute"}
Mins(kind) == kind \notin {"second", "tick_second"}
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
\* how often something due at start and every dur from then on was due in the end
Due(start, dur, now) == IF now < start THEN 0 ELSE ((now - start) \div dur) + 1
\* what is told of the ticks after a until b: the runs of seconds around the minutes
Told(kind, a, b, M) == LET m0 == a \div M m == (b \div M) - m0 IN
   IF Mins(kind) THEN [i \in 1..(m + 1) |-> IF Secs(kind) THEN Least(b, M * (m0 + i)) - Most(a, M * (m0 + i - 1)) ELSE 0]
   ELSE <<b - a>>
=============================================================================
