---------------------------- MODULE TraceFileStore --------------------------
(* Recorded histories of real storages in one directory. Every step has all *)
(* values afterwards (all), read by the storages in use and by new ones     *)
(* (same). A step "die" or "full" also has what was found after every point *)
(* at which the write was cut off; the history goes on from one of them.    *)
EXTENDS FileStore, SequencesExt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Known(key) == ("KNOWN_" \o key) \in DOMAIN IOEnv /\ PrintT("KNOWN-HIT " \o key)
VARIABLES t, k, d
vars == <<t, k, d>>
S == Traces[t].steps
o == S[k+1]
x == <<o.b, o.k>>
\* all values as they were found: those which are not 0 are listed
Found(l) == [y \in Bases \X Keys |-> LET E == {i \in DOMAIN l : l[i].b = y[1] /\ l[i].k = y[2]} IN IF E = {} THEN 0 ELSE l[CHOOSE i \in E : TRUE].v]
Becomes(f, v) == \/ f = Set(d, x, v)
                 \/ Twin(x) # {} /\ f = SetShared(d, x, v) /\ Known("storage-name")
Point(p) == LET f == Found(p.all) IN
  /\ p.same
  /\ Becomes(f, o.v) \/ (~p.ok /\ f = d)
Judge == /\ o.same
         /\ LET f == Found(o.all) IN
            /\ CASE o.op = "set" -> Becomes(f, o.v) /\ o.ok
                 [] o.op = "remove" -> Becomes(f, 0)
                 [] o.op = "reopen" -> f = d
                 [] o.op \in {"die", "full"} -> (\A i \in DOMAIN o.points : Point(o.points[i])) /\ o.complete /\ (Becomes(f, o.v) \/ f = d)
            /\ d' = f
Ops == {"set", "remove", "reopen", "die", "full"}
Init == t \in 1..Len(Traces) /\ k = 0 /\ d = Empty
Next == \/ /\ k < Len(S) /\ o.op \in Ops /\ Judge
           /\ k' = k + 1 /\ t' = t
        \/ k = Len(S) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
