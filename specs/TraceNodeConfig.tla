--------------------------- MODULE TraceNodeConfig --------------------------
(* Recorded histories of a node's storage and of nodes started on it. (C25) *)
EXTENDS NodeConfig, Sequences, SequencesExt, Integers, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, f, used, run, K, chat, on, con, sg, ng, ns
vars == <<t, k, f, used, run, K, chat, on, con, sg, ng, ns>>
S == Traces[t].steps
o == S[k+1]
\* on, con: the nodes known to be online, and the connected ones
\* run: the configuration of the running node; K, chat: what is known in the storage
Conf(x) == [key |-> x.key, name |-> x.name, client |-> x.client, mods |-> ToSet(x.mods)]
Keep == UNCHANGED <<run, K, chat, on, con>>
\* the signers: one is made if there is none, and the one asked for is always the first one; sg: in the storage, ng: of the running node, ns: how many there ever were
Signs == LET st == IF o.spoil > 0 THEN <<>> ELSE sg l == IF o.who = 1 THEN ng ELSE st made == l = <<>> \/ o.act = "add" l2 == IF made THEN Append(l, ns + 1) ELSE l IN
         /\ o.list = l2 /\ (IF o.act = "get" THEN o.got = l2[1] ELSE o.got \in {l2[1], ns + 1}) /\ ToSet(o.signs) = {o.got}
         /\ ns' = (IF made THEN ns + 1 ELSE ns) /\ sg' = (IF made THEN l2 ELSE st) /\ o.stored = sg' /\ ng' = (IF o.who = 1 THEN l2 ELSE ng)
Signers == IF o.op = "signer" THEN Signs ELSE UNCHANGED <<sg, ns>> /\ ng' = (IF o.op = "start" THEN sg ELSE ng)
Who == UNCHANGED <<on, con>>
Gossips(c) == {RAND, GOSSIP} \subseteq c.mods
\* what the running node shows
Named(kn, who) == {[key |-> x.key, name |-> x.name] : x \in {y \in kn : y.key \in who}}
Shows(x, c, kn, ch, O, C) == x.rand = (RAND \in c.mods) /\
   IF Gossips(c)
   THEN /\ x.up /\ x.ids /\ ToSet(x.ats) = {[key |-> y.key, at |-> y.at] : y \in {z \in kn : z.key \in 11..13}} /\ ToSet(x.infos) = Shown(kn) /\ Len(x.infos) = Cardinality(kn) /\ ToSet(x.chat) = ch /\ Len(x.chat) = Cardinality(ch)
        /\ ToSet(x.online) = Named(kn, O) /\ Len(x.online) = Cardinality(ToSet(x.online))
        /\ ToSet(x.connected) = Named(kn, C) /\ Len(x.connected) = Cardinality(ToSet(x.connected))
   ELSE ~x.up
\* the configuration is read, and written again
Got(x) == LET c == Conf(x) IN /\ x.idok /\ Reads(f, used, c) /\ used' = used \cup {c.key}
Judge == CASE o.op = "write" -> f' = Good(Conf(o)) /\ used' = used \cup {o.key} /\ Keep
           [] o.op = "spoil" -> f' = (IF o.r = 1 THEN None ELSE Bad) /\ UNCHANGED used /\ Keep
           [] o.op = "get" -> Got(o.got) /\ f' = Good(Conf(o.got)) /\ Keep
           [] o.op = "rename" -> Got(o.got) /\ f' = Good([Conf(o.got) EXCEPT !.name = o.name]) /\ Keep
           [] o.op = "start" -> LET c == Conf(o.got) old == IF o.g >= 6 THEN {} ELSE K ch == IF o.g \in {5} \cup 7..9 THEN {} ELSE chat
                kn == IF Gossips(c) THEN Learn(old, [key |-> c.key, name |-> c.name, at |-> o.at]) ELSE old IN
                /\ Got(o.got) /\ f' = Good(c) /\ run' = c /\ K' = kn /\ chat' = ch /\ on' = {} /\ con' = {}
                /\ ToSet(o.parts) = Parts(c.mods) /\ Shows(o.sees, c, kn, ch, {}, {})
           [] o.op = "hear" -> LET kn == IF Gossips(run) THEN Learn(K, [key |-> o.key, name |-> o.name, at |-> o.at]) ELSE K IN
                K' = kn /\ Shows(o.sees, run, kn, chat, on, con) /\ UNCHANGED <<f, used, run, chat>> /\ Who
           [] o.op = "hearbad" -> Shows(o.sees, run, K, chat, on, con) /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "say" -> LET ch == IF Gossips(run) THEN chat \cup {[v |-> k + 1, key |-> run.key, name |-> o.name]} ELSE chat IN
                chat' = ch /\ Shows(o.sees, run, K, ch, on, con) /\ o.ok = Gossips(run) /\ UNCHANGED <<f, used, run, K>> /\ Who
           [] o.op = "list" -> /\ on' = (IF RAND \in run.mods THEN on \cup (ToSet(o.keys) \ {run.key}) ELSE on)
                               /\ Shows(o.sees, run, K, chat, on', con) /\ UNCHANGED <<f, used, run, K, chat, con>>
           [] o.op = "link" -> /\ on' = (IF RAND \notin run.mods THEN on ELSE IF o.up = 1 THEN on \cup {o.key} ELSE on \ {o.key})
                               /\ con' = (IF RAND \notin run.mods THEN con ELSE IF o.up = 1 THEN con \cup {o.key} ELSE con \ {o.key})
                               /\ Shows(o.sees, run, K, chat, on', con') /\ UNCHANGED <<f, used, run, K, chat>>
           [] o.op = "infos" -> /\ o.ok = Gossips(run) /\ (o.ok => ToSet(o.infos) = {x \in Shown(K) : x.key \in ToSet(o.keys)} /\ Len(o.infos) = Cardinality(ToSet(o.infos)))
                                /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "sign" -> o.ok = Verifies(o.a, o.b, o.t) /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "signer" -> UNCHANGED <<f, used>> /\ Keep
           [] o.op = "info" -> o.got.idok /\ Conf(o.got) = Conf(o) /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "badinfo" -> ~o.ok /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "odd" -> (~o.ok \/ (o.same /\ o.diff /\ (o.len # 32 => ~o.ver))) /\ UNCHANGED <<f, used>> /\ Keep
           [] o.op = "id" -> o.res = (IF o.r <= 5 THEN "same" ELSE "refused") /\ UNCHANGED <<f, used>> /\ Keep
Ops == {"write", "spoil", "get", "rename", "start", "hear", "hearbad", "say", "infos", "sign", "info", "badinfo", "odd", "id", "list", "link", "signer"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ f = None /\ used = {1, 2, 3, 4, 11, 12, 13} /\ run = NoConf /\ K = {} /\ chat = {} /\ on = {} /\ con = {} /\ sg = <<>> /\ ng = <<>> /\ ns = 0
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge /\ Signers
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
