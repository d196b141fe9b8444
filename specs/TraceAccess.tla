----------------------------- MODULE TraceAccess ----------------------------
(* C17: recorded uses of real conditions, signatures and links.             *)
EXTENDS Access, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, cond, sigs
vars == <<t, k, cond, sigs>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Els(s) == {s[i] : i \in 1..Len(s)}
Known(key) == ("KNOWN_" \o key) \in DOMAIN IOEnv /\ PrintT("KNOWN-HIT " \o key)
YN(b) == IF b THEN "yes" ELSE "no"
Over(m) == [n |-> m, c |-> cond]
Raw(m) == [n |-> m, c |-> [k |-> "raw"]]
Set(s, x) == sigs' = [y \in DOMAIN sigs \cup {s} |-> IF y = s THEN x ELSE sigs[y]]
Del(D) == [y \in DOMAIN sigs \ D |-> sigs[y]]
\* the badge's content cannot be judged by the link: see known_findings.txt
Match == LET e == Matches(cond, o.l) IN o.r = YN(e) \/ (HasBadge(o.l) /\ (e \/ AnyNa(cond)) /\ o.r \in {"no", "panic"} /\ Known("badge-link"))
Sign(d) == /\ Mentions(cond, o.s) => o.r = "yes"
           /\ IF o.r = "yes" THEN Set(o.s, [by |-> o.s, over |-> d, bad |-> 0]) ELSE UNCHANGED sigs
Act ==
  CASE o.op = "cond" -> cond' = o.c /\ sigs' = IF o.keep = 0 THEN [x \in {} |-> 0] ELSE sigs
    [] o.op = "sign" -> Sign(Over(o.m)) /\ UNCHANGED cond
    [] o.op = "signd" -> Sign(Raw(o.m)) /\ UNCHANGED cond
    [] o.op = "put" -> Set(o.s, [by |-> o.by, over |-> Raw(o.m), bad |-> o.bad]) /\ UNCHANGED cond
    [] o.op = "damage" -> (IF o.s \in DOMAIN sigs /\ o.bad # 0 THEN Set(o.s, [sigs[o.s] EXCEPT !.bad = 9]) ELSE UNCHANGED sigs) /\ UNCHANGED cond
    [] o.op = "move" -> /\ sigs' = IF o.s \in DOMAIN sigs THEN [y \in (DOMAIN sigs \ {o.s}) \cup {o.y} |-> IF y = o.y THEN sigs[o.s] ELSE sigs[y]] ELSE sigs
                        /\ UNCHANGED cond
    [] o.op = "del" -> sigs' = Del({o.s}) /\ UNCHANGED cond
    [] o.op = "ser" -> o.r = "yes" /\ UNCHANGED <<cond, sigs>>
    [] o.op = "vmsg" -> o.r = YN(Sat(cond, Valid(sigs, Over(o.m)))) /\ UNCHANGED <<cond, sigs>>
    [] o.op = "vdig" -> o.r = YN(Sat(cond, Valid(sigs, Raw(o.m)))) /\ UNCHANGED <<cond, sigs>>
    [] o.op = "match" -> Match /\ UNCHANGED <<cond, sigs>>
    [] o.op = "can" -> o.r = YN(Sat(cond, Els(o.S))) /\ UNCHANGED <<cond, sigs>>
    [] o.op = "resolve" -> o.res = Resolve(o.l, Els(c.known), c.badges) /\ UNCHANGED <<cond, sigs>>
    [] OTHER -> FALSE /\ UNCHANGED <<cond, sigs>>
Init == t \in 1..Len(Traces) /\ k = 0 /\ cond = [k |-> "na"] /\ sigs = [x \in {} |-> 0]
Next == \/ k < Len(S) /\ Act /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
