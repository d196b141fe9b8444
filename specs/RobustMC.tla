------------------------------- MODULE RobustMC -----------------------------
(* A node reading what others send: a lower part takes off the first        *)
(* envelope, an upper part reads what is inside. Whatever is spoiled is     *)
(* dropped where it is read; a node can be stopped and started at any time. *)
EXTENDS Robust, Sequences
CONSTANTS F, C, MaxSent, Tolerant
VARIABLES net, up, h, chats, disk, alive, came, asked, answered, sent, cut
vars == <<net, up, h, chats, disk, alive, came, asked, answered, sent, cut>>
\* bad: the level which is spoiled, 0 if none
Msgs == [k : {"flo"}, n : F, bad : 0..2] \cup [k : {"chat"}, n : C, bad : 0..2] \cup [k : {"ask"}, n : {0}, bad : 0..2]
EmptyDisk == [h |-> Nothing, c |-> {}]
Parts == {"lower", "upper"}
Init == /\ net = <<>> /\ up = <<>> /\ h = Nothing /\ chats = {} /\ disk = EmptyDisk /\ alive = Parts
        /\ came = {} /\ asked = 0 /\ answered = 0 /\ sent = 0 /\ cut = 0
Send == sent < MaxSent /\ sent' = sent + 1 /\ \E m \in Msgs :
        /\ net' = Append(net, m) /\ asked' = asked + (IF m.k = "ask" /\ m.bad = 0 THEN 1 ELSE 0)
        /\ came' = (IF m.bad = 0 THEN came \cup {[k |-> m.k, n |-> m.n]} ELSE came)
        /\ UNCHANGED <<up, h, chats, disk, alive, answered, cut>>
Lower == net # <<>> /\ "lower" \in alive /\ net' = Tail(net)
         /\ (IF Head(net).bad = 1 THEN UNCHANGED up /\ alive' = (IF Tolerant THEN alive ELSE alive \ {"lower"})
             ELSE up' = Append(up, Head(net)) /\ UNCHANGED alive)
         /\ UNCHANGED <<h, chats, disk, came, asked, answered, sent, cut>>
Upper == up # <<>> /\ "upper" \in alive /\ up' = Tail(up)
         /\ (LET m == Head(up) IN
             IF m.bad = 2 THEN UNCHANGED <<h, chats, disk, answered>> /\ alive' = (IF Tolerant THEN alive ELSE alive \ {"upper"})
             ELSE /\ h' = (IF m.k = "flo" THEN Store(h, m.n) ELSE h)
                  /\ chats' = (IF m.k = "chat" THEN chats \cup {m.n} ELSE chats)
                  /\ answered' = answered + (IF m.k = "ask" THEN 1 ELSE 0)
                  /\ disk' = [h |-> h', c |-> chats'] /\ UNCHANGED alive)
         /\ UNCHANGED <<net, came, asked, sent, cut>>
\* what was on its way is lost
Lost(q) == Len(SelectSeq(q, LAMBDA m : m.k = "ask" /\ m.bad = 0))
Restart == cut < 1 /\ cut' = cut + 1 /\ net' = <<>> /\ up' = <<>> /\ h' = disk.h /\ chats' = disk.c /\ alive' = Parts
           /\ asked' = asked - Lost(net) - Lost(up) /\ UNCHANGED <<disk, came, answered, sent>>
Next == Send \/ Lower \/ Upper \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Lower) /\ WF_vars(Upper)
AllAlive == alive = Parts
OnDisk == disk = [h |-> h, c |-> chats]
OnlySent == /\ \A f \in h.f : [k |-> "flo", n |-> f] \in came
            /\ \A c \in chats : [k |-> "chat", n |-> c] \in came
            /\ h.r \subseteq {RealmOf(f) : f \in h.f \cap Roots}
NeverLess == [][Sub(h, h') /\ chats \subseteq chats']_vars
Answered == <>[](sent = MaxSent) => <>(asked = answered)
=============================================================================
