------------------------------- MODULE Broker -------------------------------
(* What one message emitted to a broker leads to.                           *)
(* A graph G has                                                            *)
(*  links: set of [f, fd, t, td, lab, flt]: translators from broker f,      *)
(*    direction fd ("i" inputs, "o" outputs) to direction td of broker t;   *)
(*    flt 0 takes every message, 1 the ones with odd, 2 with even numbers;  *)
(*  hands: set of [b, n, outs, lim]: handlers of broker b which return outs *)
(*    messages (0..2) for each message that passed less than lim handlers.  *)
(* A message is [id, via]: via are the labels of the links and handlers     *)
(* (100+n, 200+n) it came through since it was emitted. The trail are the   *)
(* brokers which forwarded it since it was emitted or returned by a handler.*)
EXTENDS Naturals, Sequences, FiniteSets
Hops(via) == Cardinality({i \in DOMAIN via : via[i] >= 100})
Takes(l, id) == id = 0 \/ l.flt = 0 \/ (l.flt = 1 /\ id % 2 = 1) \/ (l.flt = 2 /\ id % 2 = 0)
Labels(h) == {(100 * x) + h.n : x \in 1..h.outs}
RECURSIVE Arr(_, _, _, _, _, _, _)
(* All arrivals <<broker, direction, via>> following from the message id being treated by broker b, direction d. Handler no is left out. *)
Arr(G, id, b, d, via, trail, no) ==
  {<<b, d, via>>}
  \cup (IF b \in trail THEN {}
        ELSE UNION {Arr(G, id, l.t, l.td, Append(via, l.lab), trail \cup {b}, 0) : l \in {x \in G.links : x.f = b /\ x.fd = d /\ Takes(x, id)}})
  \cup (IF d = "o" THEN {}
        ELSE UNION {UNION {Arr(G, id, b, "o", Append(via, lab), {}, 0) : lab \in Labels(h)} : h \in {x \in G.hands : x.b = b /\ x.n # no /\ Hops(via) < x.lim}})
(* An emission is [id, b, d, dst, h]: dst is "all", "notap" (not for the taps of this broker) or "handled" (not for handler h) *)
Emitted(G, e) == Arr(G, e.id, e.b, e.d, <<>>, {}, IF e.dst = "handled" THEN e.h ELSE 0)
(* What the subscriber s = [k: "tap" | "hand", b, d, n] gets of the emission e: a set of vias *)
For(G, e, s) == {a[3] : a \in {x \in Emitted(G, e) : x[1] = s.b /\ x[2] = s.d /\
   ~(x[3] = <<>> /\ ((s.k = "tap" /\ e.dst = "notap") \/ (s.k = "hand" /\ e.dst = "handled" /\ e.h = s.n)))}}
(* The links to brokers a via passes *)
To(G, lab) == (CHOOSE l \in G.links : l.lab = lab).t
RECURSIVE Simple(_, _, _)
Simple(G, via, seen) == IF via = <<>> THEN TRUE
  ELSE IF Head(via) >= 100 THEN Simple(G, Tail(via), seen)
  ELSE To(G, Head(via)) \notin seen /\ Simple(G, Tail(via), seen \cup {To(G, Head(via))})
(* What has to be delivered when settling broker b returns after e was emitted to b *)
Settled(G, e, s) == {v \in For(G, e, s) : Simple(G, v, {e.b})}
(* The state seen from outside: the graph, the subscribers ever attached, the ones closed or removed, the brokers with handles *)
Fresh(nb, lim) == [links |-> {}, hands |-> {}, subs |-> {}, gone |-> {}, alive |-> 1..nb, lim |-> lim]
Graph(st) == [links |-> st.links, hands |-> st.hands]
Link(f, fd, t, td, lab, flt) == [f |-> f, fd |-> fd, t |-> t, td |-> td, lab |-> lab, flt |-> flt]
\* what the functions linking broker f with broker t create
Made(o) == CASE o.api = "ii" -> {Link(o.f, "i", o.t, "i", o.lab, o.flt)}
             [] o.api = "io" -> {Link(o.f, "i", o.t, "o", o.lab, o.flt)}
             [] o.api = "oi" -> {Link(o.f, "o", o.t, "i", o.lab, o.flt)}
             [] o.api = "oo" -> {Link(o.f, "o", o.t, "o", o.lab, o.flt)}
             [] o.api = "link" -> {Link(o.f, "o", o.t, "i", o.lab, o.flt), Link(o.t, "o", o.f, "i", o.lab + 1, o.flt)}
             [] o.api = "direct" -> {Link(o.f, "o", o.t, "o", o.lab, o.flt), Link(o.t, "i", o.f, "i", o.lab + 1, o.flt)}
             [] o.api = "bi" -> {Link(o.f, "o", o.t, "i", 90, 0), Link(o.t, "o", o.f, "i", 91, 0)}
             [] o.api = "dir" -> {Link(o.f, "o", o.t, "o", 92, 0), Link(o.t, "i", o.f, "i", 93, 0)}
Elems(s) == {s[i] : i \in DOMAIN s}
Acts(o) == UNION {Elems(o.tasks[i]) : i \in DOMAIN o.tasks}
Tap(o) == [k |-> "tap", b |-> o.b, d |-> o.d, n |-> o.n]
After(st, o) ==
  CASE o.op = "sub" -> [st EXCEPT !.subs = @ \cup {Tap(o)}]
    [] o.op = "hand" -> [st EXCEPT !.subs = @ \cup {[k |-> "hand", b |-> o.b, d |-> "i", n |-> o.n]},
                                   !.hands = @ \cup {[b |-> o.b, n |-> o.n, outs |-> o.outs, lim |-> st.lim]}]
    [] o.op = "link" -> [st EXCEPT !.links = @ \cup Made(o)]
    [] o.op = "unlink" -> [st EXCEPT !.links = {l \in @ : l.lab # o.n}]
    [] o.op = "rm" -> [st EXCEPT !.gone = @ \cup {o.n}, !.hands = {h \in @ : h.n # o.n}]
    [] o.op = "close" -> [st EXCEPT !.gone = @ \cup {o.n}]
    [] o.op = "burst" -> [st EXCEPT !.subs = @ \cup {Tap(a) : a \in {x \in Acts(o) : x.a = "sub"}},
                                    !.gone = @ \cup {a.n : a \in {x \in Acts(o) : x.a = "rm"}}]
    [] o.op = "end" -> [st EXCEPT !.alive = @ \ {o.b}, !.links = {l \in @ : l.f # o.b}, !.hands = {h \in @ : h.b # o.b},
                                  !.gone = @ \cup {s.n : s \in {x \in st.subs : x.b = o.b}}]
=============================================================================
