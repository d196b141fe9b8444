------------------------------- MODULE TraceFlo -----------------------------
(* C18: recorded lives of real Flos.                                         *)
EXTENDS Flo, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, fl, ids
vars == <<t, k, fl, ids>>
c == Traces[t].cfg
S == Traces[t].steps
o == S[k+1]
Els(s) == {s[i] : i \in 1..Len(s)}
Known(key) == ("KNOWN_" \o key) \in DOMAIN IOEnv /\ PrintT("KNOWN-HIT " \o key)
YN(b) == IF b THEN "yes" ELSE "no"
\* fl: sequence of [is: did it come to exist, f]
F == fl[o.f].f
New == CASE o.op = "new" -> Create(o.ty, o.cuc, o.force, 100 + k, o.c, Els(o.S), o.x)
         [] o.op = "id" -> [Create(o.ty, o.cuc, o.force, o.nonce, [k |-> "fail"], {}, 1) EXCEPT !.glink = o.l, !.gc = [k |-> "na"], !.dc = [k |-> "na"]]
         [] o.op = "edit" -> Edit(F, o.c, o.x, Els(o.S))
         [] o.op = "cond" -> NewCond(F, o.c, o.c2, Els(o.S), Els(o.Y))
         [] o.op = "ser" -> F
         [] o.op = "tamper" -> Tamper(F, o, fl[o.g].f)
\* where nothing stands in the way
Must == CASE o.op \in {"new"} -> AllMention(Els(o.S), o.c)
          [] o.op = "edit" -> AllMention(Els(o.S), o.c) /\ Sat(o.c, Els(o.S))
          [] o.op = "cond" -> AllMention(Els(o.S), o.c) /\ AllMention(Els(o.Y), o.c2) /\ Sat(o.c, Els(o.S)) /\ Sat(o.c2, Els(o.Y))
          [] o.op = "id" -> TRUE
          [] o.op = "ser" -> TRUE
          [] OTHER -> FALSE
Badges(f) == \E i \in 0..Len(f.ups) : HasBadge(LinkAt(f, i))
Judge(f) == /\ LET e == Verify(f) IN o.ver = YN(e) \/ (e /\ Badges(f) /\ o.ver = "no" /\ Known("badge-link"))
            /\ o.v = f.dv
            /\ o.cur = Current(f)
            /\ \A n \in DOMAIN ids : (ids[n] = Id(f)) <=> (n = o.id)
            /\ o.op = "ser" => o.same = "yes"
Live == \A x \in {"f", "g"} : x \in DOMAIN o => fl[o[x]].is
Act ==
  IF "f" \in DOMAIN o /\ ~ fl[o.f].is
  THEN /\ o.ok = "skip" /\ ids' = ids /\ fl' = IF o.op = "open" THEN fl ELSE Append(fl, [is |-> FALSE, f |-> 0])
  ELSE IF o.op = "open"
  THEN /\ F.ty # o.ty => o.ok = "no"
       /\ F.ty = o.ty /\ F.dty = o.ty => o.ok = "yes"
       /\ UNCHANGED <<fl, ids>>
  ELSE IF o.ok = "no"
  THEN ~ Must /\ ids' = ids /\ fl' = Append(fl, [is |-> FALSE, f |-> 0])
  ELSE /\ Live /\ o.ok = "yes"
       /\ \E f \in {New} : Judge(f) = TRUE /\ fl' = Append(fl, [is |-> TRUE, f |-> f]) /\ ids' = [n \in DOMAIN ids \cup {o.id} |-> IF n = o.id THEN Id(f) ELSE ids[n]]
Init == t \in 1..Len(Traces) /\ k = 0 /\ fl = <<>> /\ ids = [x \in {} |-> 0]
Ops == {"new", "id", "edit", "cond", "ser", "tamper", "open"}
Next == \/ k < Len(S) /\ o.op \in Ops /\ Act /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
