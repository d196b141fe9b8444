------------------------------- MODULE Robust -------------------------------
(* What a node holds, and what the messages of other nodes make of it.      *)
(* A message is an envelope: level 1 is read by a part directly connected   *)
(* to the network, level 2, if there is one, by a part above it. `cls` says *)
(* if it is "good", i.e., a message of template t; "bad", i.e., no message  *)
(* of its module; or "odd": spoiled at one place, and maybe still (or       *)
(* again) a message.                                                        *)
EXTENDS Naturals, FiniteSets
Templates == 1..28
Flos == 1..6
Chats == 1..5
Kinds == 1..40
\* the realm of each Flo, and the Flos which are roots of their realms
RealmOf(f) == IF f <= 3 THEN 1 ELSE 2
Roots == {1, 4}
\* what is held: h.r realms, h.f Flos
Nothing == [r |-> {}, f |-> {}]
Store(h, f) == IF f \in Roots \/ RealmOf(f) \in h.r THEN [r |-> h.r \cup {RealmOf(f)}, f |-> h.f \cup {f}] ELSE h
Everything == [r |-> {1, 2}, f |-> Flos]
Sub(g, h) == g.r \subseteq h.r /\ g.f \subseteq h.f
\* spoiling the root in this way never leaves a message
NoMessage == (1..11) \cup {18, 22, 24, 28, 29, 30, 35, 36, 37, 39, 40}
HasInner(t) == t \notin {9, 10, 11, 12, 13}
Routed(t) == t \in 21..28
Class(o) == IF o.lvl = 0 \/ o.same THEN "good"
            ELSE IF o.lvl \in {3, 4} THEN "bad"
            ELSE IF (o.pos = 0 /\ o.kind \in NoMessage) \/ o.kind \in {35, 36, 39, 40} THEN "bad" ELSE "odd"
\* what a well-formed message adds
Chat(o) == IF o.t = 1 THEN {((o.n - 1) % 5) + 1} ELSE {}
Held(h, o) == CASE o.t \in {19, 21, 25} -> Store(h, o.n) [] o.t = 20 -> Everything [] OTHER -> h
=============================================================================
