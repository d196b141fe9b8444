----------------------------- MODULE RandomConn -----------------------------
(* The lists of the random-connections module of node 1:                    *)
(*  st = [C: connected, X: connecting, K: known], sets of node numbers, and *)
(*  A: how many ticks the connecting ones have been waiting.                *)
(*  c.need[n+1]: connections required when n nodes are known.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANT Patience
Els(s) == {s[i] : i \in 1..Len(s)}
Empty == [C |-> {}, X |-> {}, K |-> {}, A |-> [i \in {} |-> 0]]
UpTo(st) == [st EXCEPT !.A = [i \in st.X |-> IF i \in DOMAIN st.A THEN st.A[i] ELSE 0]]
Need(c, st) == c.need[Cardinality(st.K) + 1]
Half(c, st) == (Need(c, st) + 1) \div 2
Total(st) == Cardinality(st.C) + Cardinality(st.X)
Unused(st) == st.K \ (st.C \cup st.X)
Without(st, f) == UpTo([st EXCEPT !.C = @ \ {f}, !.X = @ \ {f}, !.K = @ \ {f}])
WithC(st, f) == UpTo([st EXCEPT !.C = @ \cup {f}, !.X = @ \ {f}, !.K = @ \cup {f}])
\* who has been waiting too long has failed, and might be tried again
Older(st) == UpTo([st EXCEPT !.X = {i \in @ : st.A[i] + 1 < Patience}, !.A = [i \in DOMAIN @ |-> @[i] + 1]])
\* the lists after operation o, before new connections are asked for
After(st, o) ==
  CASE o.op = "list" -> [st EXCEPT !.K = @ \cup ({x[1] : x \in Els(o.l)} \ {1})]
    [] o.op \in {"con", "msg"} -> WithC(st, o.f)
    [] o.op \in {"disc", "drop", "fail"} -> Without(st, o.f)
    [] o.op = "send" -> IF o.f \in st.C THEN st ELSE Without(st, o.f)
    [] o.op = "tick" -> Older(st)
    [] OTHER -> st
Filling == {"list", "disc", "drop", "fail", "tick"}
\* how many new connections are asked for at least and at most
Wants(c, st, h) == LET w == IF h > Total(st) THEN h - Total(st) ELSE 0 IN Min({w, Cardinality(Unused(st))})
Least(c, st, op) == IF op \in Filling THEN Wants(c, st, Half(c, st)) ELSE 0
Most(c, st, op) == Wants(c, st, IF op = "tick" THEN Need(c, st) ELSE Half(c, st))
AskOK(c, st, op, S) == /\ S \subseteq Unused(st)
                       /\ Cardinality(S) >= Least(c, st, op) /\ Cardinality(S) <= Most(c, st, op)
Asked(st, S) == UpTo([st EXCEPT !.X = @ \cup S])
Waiting(c, st) == Total(st) < Need(c, st) /\ Unused(st) # {}
LOCAL Self(st) == 1 \notin st.C \cup st.X \cup st.K
ListsOK(st) == DOMAIN st.A = st.X /\ (\A i \in st.X : st.A[i] < Patience) /\ st.C \cap st.X = {} /\ st.C \cup st.X \subseteq st.K /\ Self(st)
\* what is known about other nodes: id -> version of the last info
Infos(I, o) == IF o.op # "list" THEN I ELSE
  LET last == [i \in {x[1] : x \in Els(o.l)} |-> o.l[Max({j \in 1..Len(o.l) : o.l[j][1] = i})][2]]
  IN [i \in (DOMAIN I \cup DOMAIN last) \ {1} |-> IF i \in DOMAIN last THEN last[i] ELSE I[i]]
=============================================================================
