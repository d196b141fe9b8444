---------------------------- MODULE TraceRealmView ---------------------------
(* Recorded histories of views on a realm. (C26) *)
EXTENDS RealmView, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, g
vars == <<t, k, g>>
S == Traces[t].steps
o == S[k+1]
cfg == Traces[t].cfg
Shown(id, b) == [id |-> id, k |-> b.k, ver |-> b.ver, name |-> b.name, par |-> b.par, chi |-> b.chi, txt |-> b.txt]
AllShown(f) == {Shown(x, f[x]) : x \in DOMAIN f}
Same(seen, f) == ToSet(seen) = AllShown(f) /\ Len(seen) = Cardinality(DOMAIN f)
SameC(seen, f) == ToSet(seen) = {<<x, f[x]>> : x \in DOMAIN f} /\ Len(seen) = Cardinality(DOMAIN f)
View(x, w) == /\ Same(x.pg, w.pg) /\ SameC(x.pc, w.pc) /\ Same(x.tg, w.tg) /\ SameC(x.tc, w.tc)
              /\ x.pr = w.pr /\ x.tr = w.tr /\ x.rv = w.rl.ver /\ x.http = w.rl.http /\ x.tag = w.rl.tag
              /\ x.rootp = (w.pr \in DOMAIN w.pg) /\ x.roott = (w.tr \in DOMAIN w.tg)
              \* full paths of all pages; the tags and what is unknown have none
              /\ \A i \in DOMAIN x.fp : x.fp[i][2] = FullPath(w, x.fp[i][1], {})
              /\ {x.fp[i][1] : i \in DOMAIN x.fp} = DOMAIN w.pg \cup DOMAIN w.tg \cup {Unknown}
              \* what is found under a path
              /\ \A i \in DOMAIN x.lk : LET l == x.lk[i] c == Lookup(w, l.path) IN
                   /\ (c = {} => l.id = 0) /\ (c # {} => l.id \in c)
                   /\ LET up == SubSeq(l.path, 1, Len(l.path) - 1) d == Lookup(w, up) IN
                      IF d = {} THEN l.above = 0 ELSE l.above \in d /\ l.last = l.path[Len(l.path)]
Stored(x, h) == /\ \A i \in DOMAIN h.st : x.st[i] = Shown(i, h.st[i])
                /\ Len(x.st) = Len(h.st) /\ x.ck = h.ck
                /\ x.rv = h.rl.ver /\ x.http = h.rl.http /\ x.tag = h.rl.tag
Sees(x, h) == View(x.vs[1], h.vs[1]) /\ View(x.vs[2], h.vs[2]) /\ Stored(x, h)
Res == /\ o.ok = Works(g, o, cfg.rc)
       /\ o.op = "attached" => LET w == g'.vs[o.v] IN o.got = SelectSeq(<<o.id>> \o At(w.pc, o.id), LAMBDA x : x \in DOMAIN w.pg)
       /\ o.op \in {"create", "ctag"} => (o.ok => o.id = Len(g'.st))
Init == t \in 1..Len(Traces) /\ k = 0 /\ g = Start(Traces[t].cfg.name, Traces[t].cfg.pc, Traces[t].cfg.cu)
Next == \/ /\ k < Len(S)
           /\ IF o.op = "start" THEN k = 0 /\ o.ok /\ g' = Open(Open(g, 1), 2)
              ELSE o.op \in Ops /\ g' = Apply(g, o, cfg.rc) /\ Res
           /\ o.see => Sees(o.sees, g')
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
