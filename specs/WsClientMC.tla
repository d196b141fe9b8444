----------------------------- MODULE WsClientMC -----------------------------
(* The client as it is implemented: a queue of inputs handled one by one, a *)
(* listener per connection which queues a request to connect when its       *)
(* connection ends, against a server which does anything.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, TX
VARIABLES q, cur, lst, alive, nx, up, down, srv, cli, said, asked, off, sr
vars == <<q, cur, lst, alive, nx, up, down, srv, cli, said, asked, off, sr>>
\* cur: connection written to (0: none); lst: connection listened to (0: none); alive: connections the server has not ended
\* up[c], down[c]: texts under way; srv, cli: received; said: number of texts by the user; asked: connects by the user
\* off: the last thing handled which decides was a Disconnect; sr: the server can be reached
Conns == 1..N
\* inputs: a number from 11 is a text
ON == 1
OFF == 2
Init == q = <<ON>> /\ cur = 0 /\ lst = 0 /\ alive = {} /\ nx = 0 /\ up = [c \in Conns |-> <<>>] /\ down = [c \in Conns |-> <<>>]
        /\ srv = [c \in Conns |-> <<>>] /\ cli = <<>> /\ said = 0 /\ asked = 1 /\ off = FALSE /\ sr = TRUE
Room == Len(q) < 3
User == /\ Room /\ UNCHANGED <<cur, lst, alive, nx, up, down, srv, cli, off, sr>>
        /\ \/ said < TX /\ said' = said + 1 /\ q' = Append(q, said + 10) /\ UNCHANGED asked
           \/ asked < TX /\ asked' = asked + 1 /\ (q' = Append(q, ON) \/ q' = Append(q, OFF)) /\ UNCHANGED said
Connect == IF sr /\ nx < N THEN nx' = nx + 1 /\ cur' = nx + 1 /\ lst' = nx + 1 /\ alive' = alive \cup {nx + 1}
           ELSE cur' = 0 /\ lst' = 0 /\ UNCHANGED <<nx, alive>>
Handle == /\ q # <<>> /\ q' = Tail(q) /\ UNCHANGED <<down, srv, cli, said, asked, sr>>
          /\ LET x == Head(q) IN
             CASE x = OFF -> cur' = 0 /\ lst' = 0 /\ off' = TRUE /\ UNCHANGED <<nx, alive, up>>
               [] x = ON -> Connect /\ off' = FALSE /\ UNCHANGED up
               [] OTHER -> /\ off' = FALSE
                           /\ IF cur # 0 THEN \/ up' = [up EXCEPT ![cur] = Append(@, x)] /\ UNCHANGED <<cur, lst, nx, alive>>
                                              \/ cur \notin alive /\ Connect /\ UNCHANGED up
                              ELSE Connect /\ UNCHANGED up
Deliver == \E c \in Conns : up[c] # <<>> /\ up' = [up EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<q, cur, lst, alive, nx, down, cli, said, asked, off, sr>>
           /\ srv' = [srv EXCEPT ![c] = IF c \in alive THEN Append(@, Head(up[c])) ELSE @]
ServerSays == \E c \in alive : Len(down[c]) < 2 /\ Len(cli) < 3 /\ down' = [down EXCEPT ![c] = Append(@, c)] /\ UNCHANGED <<q, cur, lst, alive, nx, up, srv, cli, said, asked, off, sr>>
Hear == lst # 0 /\ down[lst] # <<>> /\ cli' = Append(cli, [c |-> lst, w |-> cur]) /\ down' = [down EXCEPT ![lst] = Tail(@)] /\ UNCHANGED <<q, cur, lst, alive, nx, up, srv, said, asked, off, sr>>
ServerEnds == \E c \in alive : alive' = alive \ {c} /\ UNCHANGED <<q, cur, lst, nx, up, down, srv, cli, said, asked, off, sr>>
Notice == lst # 0 /\ lst \notin alive /\ down[lst] = <<>> /\ lst' = 0 /\ q' = Append(q, ON) /\ UNCHANGED <<cur, alive, nx, up, down, srv, cli, said, asked, off, sr>>
Reach == sr' \in BOOLEAN /\ UNCHANGED <<q, cur, lst, alive, nx, up, down, srv, cli, said, asked, off>>
Next == User \/ Handle \/ Deliver \/ ServerSays \/ Hear \/ ServerEnds \/ Notice \/ Reach
Spec == Init /\ [][Next]_vars /\ WF_vars(Handle) /\ WF_vars(Notice) /\ WF_vars(Hear)
\* texts arrive in order and at most once over all connections together
RECURSIVE Flat(_)
Flat(c) == IF c = 0 THEN <<>> ELSE Flat(c - 1) \o srv[c]
Order == \A c \in Conns : \A i, j \in DOMAIN Flat(N) : i < j => Flat(N)[i] < Flat(N)[j]
\* what is heard comes from the connection which is written to
Current == \A i \in DOMAIN cli : cli[i].c = cli[i].w
OneConn == lst \in {0, cur}
\* nothing is open after a Disconnect unless something came after it
OffIsOff == off => cur = 0 /\ lst = 0
\* a broken connection is noticed and replaced, or dropped if the server cannot be reached
Heals == \A c \in Conns : (cur = c /\ c \notin alive) ~> (cur # c)
=============================================================================
