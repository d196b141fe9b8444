---------------------------- MODULE NodeConfigMC ----------------------------
(* A node which is started, renamed, upgraded and stopped at any point; its *)
(* file can be spoiled at any time.                                         *)
EXTENDS NodeConfig
CONSTANTS K, M
VARIABLES f, fmt, mem, used, last, ver, spoilt
vars == <<f, fmt, mem, used, last, ver, spoilt>>
\* ver: version of the program, fmt: version of the file; last: the key of the latest start; spoilt: the file was spoilt since
Init == f = None /\ fmt = 0 /\ mem = NoConf /\ used = {} /\ last = 0 /\ ver = 1 /\ spoilt = FALSE
Confs == [key : 1..K, name : 1..2, client : {1}, mods : SUBSET M]
Known(m) == IF ver = 1 THEN m \cap V1Mods ELSE m
Start == mem = NoConf /\ (\E c \in Confs :
         /\ IF f.st = "good" THEN c = f.c ELSE c.key \notin used /\ c.mods = Known(M)
         /\ mem' = c /\ f' = Good(c) /\ fmt' = ver /\ used' = used \cup {c.key} /\ last' = c.key) /\ spoilt' = FALSE /\ UNCHANGED ver
Rename == mem # NoConf /\ \E n \in 1..2 : mem' = [mem EXCEPT !.name = n] /\ f' = Good([mem EXCEPT !.name = n]) /\ UNCHANGED <<fmt, used, last, ver, spoilt>>
Stop == mem # NoConf /\ mem' = NoConf /\ UNCHANGED <<f, fmt, used, last, ver, spoilt>>
Upgrade == mem = NoConf /\ ver = 1 /\ ver' = 2 /\ UNCHANGED <<f, fmt, mem, used, last, spoilt>>
Spoil == f' \in {None, Bad} /\ spoilt' = TRUE /\ UNCHANGED <<fmt, mem, used, last, ver>>
Next == Start \/ Rename \/ Stop \/ Upgrade \/ Spoil
Spec == Init /\ [][Next]_vars
SameIdentity == ~spoilt /\ f.st = "good" => f.c.key = last
OneIdentity == mem # NoConf => mem.key = last
Old == fmt <= ver
\* an identity never comes back, nor changes without reason
Kept == [][last' # last => last' \notin used /\ (spoilt \/ last = 0)]_vars
=============================================================================
