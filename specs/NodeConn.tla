------------------------------- MODULE NodeConn -----------------------------
(* The peer connections of one node: to every other node there is at most   *)
(* one connection with two channels, 1 = incoming and 2 = outgoing. Texts   *)
(* are cut in packets, kept until a channel is open, and put together again *)
(* on the other side.                                                       *)
(*   st[d]: what is known of a channel: [k |-> 0] nothing,                  *)
(*          [k |-> 1, open, m]: last report (m: its number, 0: made here)   *)
(*   q    : texts to be sent                                                *)
(*   got  : packets <<text, part, parts>> of texts not yet complete         *)
EXTENDS Naturals, Sequences, FiniteSets
In == 1
Out == 2
None == [k |-> 0, open |-> FALSE, m |-> 0]
Report(open, m) == [k |-> 1, open |-> open, m |-> m]
New == [up |-> FALSE, st |-> <<None, None>>, q |-> <<>>, got |-> {}]
Opens(c) == {d \in {In, Out} : c.st[d].open}
Ensure(c) == [c EXCEPT !.up = TRUE]
Queue(c, x) == [Ensure(c) EXCEPT !.q = Append(@, x)]
Flushed(c) == [c EXCEPT !.q = <<>>]
Connected(c, d) == [c EXCEPT !.st[d] = Report(TRUE, 0)]
Reported(c, d, open, m) == [c EXCEPT !.st[d] = Report(open, m)]
Lost(c, d) == [c EXCEPT !.st[d] = None]
SetupOut(c) == IF c.st[Out] = None THEN [c EXCEPT !.st[Out] = Report(FALSE, 0)] ELSE c
(* receiving *)
Complete(got, x, of) == \A p \in 1..of : <<x, p, of>> \in got
Take(got, x, p, of) == LET g == got \cup {<<x, p, of>>} IN
   IF Complete(g, x, of) THEN {y \in g : y[1] # x} ELSE g
Delivers(got, x, p, of) == Complete(got \cup {<<x, p, of>>}, x, of)
=============================================================================
