------------------------------ MODULE WsClient ------------------------------
(* A websocket client and the server it talks to. State s:                  *)
(*  up, cur: connected by connection number cur; nx: connections so far;    *)
(*  srv: what the server notices [c, k, m], cl: what the client reports.    *)
(* mode: "serve", "refuse" or "junk" for new connections; greet: number of  *)
(* texts the server says first on each connection.                          *)
EXTENDS Naturals, Sequences
S0 == [up |-> FALSE, cur |-> 0, nx |-> 0, srv |-> <<>>, cl |-> <<>>]
Fresh(s) == [s EXCEPT !.srv = <<>>, !.cl = <<>>]
Note(s, c, kind, m) == [s EXCEPT !.srv = Append(@, [c |-> c, k |-> kind, m |-> m])]
Report(s, kind, m) == [s EXCEPT !.cl = Append(@, [k |-> kind, m |-> m])]
RECURSIVE Say(_, _)
Say(s, ms) == IF ms = <<>> THEN s ELSE Say(Report(s, "text", Head(ms)), Tail(ms))
GreetMs(c, n) == [i \in 1..n |-> 1000000 + c * 100 + i]
\* the connection, if any, is gone
Lost(s) == [s EXCEPT !.up = FALSE]
Closed(s) == IF s.up THEN Lost(Note(s, s.cur, "end", 0)) ELSE s
Try(s, mode, greet) == IF mode # "serve" THEN s
   ELSE LET n == s.nx + 1 IN Say(Note([s EXCEPT !.nx = n, !.cur = n, !.up = TRUE], n, "open", 0), GreetMs(n, greet))
On(s, mode, greet) == Try(Closed(s), mode, greet)
Off(s) == Report(Closed(s), "off", 0)
\* a text for the server: only reconnects if there is no connection
Msg(s, m, mode, greet) == IF s.up THEN Note(s, s.cur, "text", m) ELSE Try(s, mode, greet)
One(s, x, m, mode, greet) == CASE x = "on" -> On(s, mode, greet) [] x = "off" -> Off(s) [] x = "msg" -> Msg(s, m, mode, greet)
RECURSIVE Ins(_, _, _, _, _, _)
Ins(s, xs, j, v, mode, greet) == IF j > Len(xs) THEN s ELSE Ins(One(s, xs[j], v * 100 + j, mode, greet), xs, j + 1, v, mode, greet)
\* the server says something and then, maybe, ends the connection in some way
SrvSay(s, ms) == IF s.up THEN Say(s, ms) ELSE s
SrvEnd(s, mode, greet) == IF s.up THEN Try(Lost(s), mode, greet) ELSE s
=============================================================================
