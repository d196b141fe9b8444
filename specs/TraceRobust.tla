----------------------------- MODULE TraceRobust ----------------------------
(* A node and everything it got; what its parts answer afterwards. (C28)    *)
EXTENDS Robust, Sequences, SequencesExt, Integers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, chats, held, loose
vars == <<t, k, chats, held, loose>>
S == Traces[t].steps
o == S[k+1]
\* every part answers, and shows what is held
Shows(p, c, h) == /\ p.own /\ p.pong = 1 /\ p.proxy = 1
                  /\ ToSet(p.chats) = c /\ ToSet(p.shown) = c
                  /\ ToSet(p.flos) = h.f /\ Len(p.flos) = Cardinality(h.f)
                  /\ ToSet(p.realms) = h.r /\ Len(p.realms) = Cardinality(h.r)
Is(c, h, l) == chats' = c /\ held' = h /\ loose' = l /\ Shows(o.probe, c, h)
Shown == [r |-> ToSet(o.probe.realms), f |-> ToSet(o.probe.flos)]
\* something might have been understood: nothing gets lost
Grows == chats \subseteq ToSet(o.probe.chats) /\ Sub(held, Shown) /\ Is(ToSet(o.probe.chats), Shown, TRUE)
\* after that, realms might be too small for what follows
GrowsTo(h) == IF loose THEN Sub(held, Shown) /\ Sub(Shown, h) /\ Is(chats, Shown, TRUE) ELSE Is(chats, h, FALSE)
Judge == CASE o.op = "first" -> Is({}, Nothing, FALSE)
           [] o.op = "send" /\ Class(o) = "good" -> IF Chat(o) # {} THEN Is(chats \cup Chat(o), held, loose) ELSE GrowsTo(Held(held, o))
           [] o.op = "send" /\ Class(o) = "bad" ->
                /\ ~o.changed /\ o.outs = 0 /\ (o.fwd = 0 \/ (Routed(o.t) /\ o.lvl \in {2, 4}))
                /\ Is(chats, held, loose)
           [] o.op = "send" /\ Class(o) = "odd" -> Grows
           [] o.op = "put" -> GrowsTo(Store(held, o.n))
           [] o.op = "say" -> Is(chats \cup {o.n}, held, loose)
           [] o.op \in {"tick", "leave", "restart"} -> Is(chats, held, loose)
Ops == {"first", "send", "put", "say", "tick", "leave", "restart"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ chats = {} /\ held = Nothing /\ loose = FALSE
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
