------------------------------- MODULE WebProxy ----------------------------
(* The requests of one node which others answer for it.                     *)
(*  req[m]: [dst, open, hdr, got, q, st]                                    *)
(*     dst : the node asked (0: nobody could be asked)                      *)
(*     open: the end of the answer has not been seen yet                    *)
(*     hdr : the first header seen (0: none)                                *)
(*     q   : pieces of the body not read yet                                *)
(*     t   : seconds waited for the header                                  *)
(*     st  : "wait" for the header, "have" it, "late" (gave up), "left"     *)
(*           (the client does not want the rest), "end" (seen the end)      *)
EXTENDS Naturals, Sequences, FiniteSets
Limit == 5
Req(dst) == [dst |-> dst, open |-> dst # 0, hdr |-> 0, q |-> <<>>, t |-> 0, st |-> "wait"]
Listens(r) == r.st \in {"wait", "have"}
\* an answer of node f to request r: kinds header, body, done, error
Answer(r, f, kind, v) ==
  IF ~r.open \/ f # r.dst THEN r
  ELSE CASE kind = "header" -> IF r.st = "wait" THEN [r EXCEPT !.hdr = v, !.st = "have"] ELSE r
         [] kind = "body" -> [r EXCEPT !.q = Append(@, v)]
         [] kind \in {"done", "error"} -> [r EXCEPT !.open = FALSE]
\* the client reads up to n pieces
Read(r, n) == LET x == IF n < Len(r.q) THEN n ELSE Len(r.q) IN
  [r EXCEPT !.q = SubSeq(@, x + 1, Len(@)), !.st = IF n > Len(r.q) /\ ~r.open THEN "end" ELSE @]
Reads(r, n) == SubSeq(r.q, 1, IF n < Len(r.q) THEN n ELSE Len(r.q))
Wait(r, s) == IF r.st # "wait" THEN r ELSE IF r.t + s >= Limit THEN [r EXCEPT !.st = "late", !.t = Limit] ELSE [r EXCEPT !.t = @ + s]
(* turns: asked is the sequence of nodes asked since the list changed; no node is asked again before all others *)
Turn(asked, nodes, d) == /\ d \in nodes
                         /\ LET n == Cardinality(nodes) l == Len(asked) IN
                            \A i \in 1..l : asked[i] = d => (l + 1) - i >= n
=============================================================================
