---------------------------------- MODULE Flo -------------------------------
(* Signed histories of a Flo, with symbolic signatures.                     *)
(*  f = [ty, cuc, force, nonce, glink, gc, gs,   type, configuration, first condition and who signed it  *)
(*       ups: sequence of [link, c, s],          later conditions            *)
(*       data, dty, dv, dc, ds]                  content, version, and who signed it *)
(* gc, c, dc: the resolved conditions the signatures claim to fulfil.        *)
EXTENDS Access
DG(f) == [t |-> "g", ty |-> f.ty, cuc |-> f.cuc, force |-> f.force, link |-> f.glink, nonce |-> f.nonce]
Id(f) == IF f.force # 0 THEN [t |-> "f", force |-> f.force] ELSE DG(f)
DC(f, i) == [t |-> "c", id |-> Id(f), n |-> i, link |-> f.ups[i].link]
DD(f) == [t |-> "d", id |-> Id(f), data |-> f.data, dty |-> f.dty, dv |-> f.dv, n |-> Len(f.ups)]
LinkAt(f, i) == IF i = 0 THEN f.glink ELSE f.ups[i].link
Current(f) == LinkAt(f, Len(f.ups))
Verify(f) ==
  /\ Matches(f.gc, f.glink) /\ Sat(f.gc, Valid(f.gs, DG(f)))
  /\ \A i \in 1..Len(f.ups) : Matches(f.ups[i].c, LinkAt(f, i - 1)) /\ Sat(f.ups[i].c, Valid(f.ups[i].s, DC(f, i)))
  /\ Matches(f.dc, Current(f)) /\ Sat(f.dc, Valid(f.ds, DD(f)))
SignedBy(X, d) == [s \in X |-> [by |-> s, over |-> d, bad |-> 0]]
NoSigs == [s \in {} |-> [by |-> 0, over |-> 0, bad |-> 0]]
AllMention(X, c) == \A s \in X : Mentions(c, s)
\* creation; signers which the condition does not name are refused
Create(ty, cuc, force, nonce, c, X, data) ==
  LET f == [ty |-> ty, cuc |-> cuc, force |-> force, nonce |-> nonce, glink |-> Link(c), gc |-> c, gs |-> NoSigs, ups |-> <<>>,
            data |-> data, dty |-> ty, dv |-> 0, dc |-> c, ds |-> NoSigs]
  IN [f EXCEPT !.gs = SignedBy(X, DG(f)), !.ds = SignedBy(X, DD(f))]
\* the caller says which condition it thinks is in force
Edit(f, c, data, X) == LET g == [f EXCEPT !.data = data, !.dty = f.ty, !.dv = @ + 1, !.dc = c] IN [g EXCEPT !.ds = SignedBy(X, DD(g))]
NewCond(f, c, c2, X, Y) ==
  LET g == [f EXCEPT !.ups = Append(@, [link |-> Link(c2), c |-> c, s |-> NoSigs]), !.dc = c2]
  IN [g EXCEPT !.ups[Len(g.ups)].s = SignedBy(X, DC(g, Len(g.ups))), !.ds = SignedBy(Y, DD(g))]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* where: 0 creation, 1.. condition i, 99 content
SigsAt(f, w) == IF w = 0 THEN f.gs ELSE IF w = 99 THEN f.ds ELSE f.ups[w].s
PutSigs(f, w, x) == IF w = 0 THEN [f EXCEPT !.gs = x] ELSE IF w = 99 THEN [f EXCEPT !.ds = x] ELSE [f EXCEPT !.ups[w].s = x]
Places(f) == {0, 99} \cup 1..Len(f.ups)
BadSig(x, s, bad) == IF s \in DOMAIN x THEN [x EXCEPT ![s].bad = bad] ELSE x
\* one alteration of a stored Flo; g: another Flo parts are taken from
Tamper(f, o, g) ==
  CASE o.what = "data" -> [f EXCEPT !.data = o.x]
    [] o.what = "dv" -> [f EXCEPT !.dv = o.x]
    [] o.what = "ty" -> [f EXCEPT !.ty = o.x]
    [] o.what = "cuc" -> [f EXCEPT !.cuc = o.x]
    [] o.what = "force" -> [f EXCEPT !.force = o.x]
    [] o.what = "nonce" -> [f EXCEPT !.nonce = o.x]
    [] o.what = "glink" -> [f EXCEPT !.glink = o.l]
    [] o.what = "gcond" -> [f EXCEPT !.gc = o.c]
    [] o.what = "dcond" -> [f EXCEPT !.dc = o.c]
    [] o.what = "ulink" -> IF o.i \in 1..Len(f.ups) THEN [f EXCEPT !.ups[o.i].link = o.l] ELSE f
    [] o.what = "ucond" -> IF o.i \in 1..Len(f.ups) THEN [f EXCEPT !.ups[o.i].c = o.c] ELSE f
    [] o.what = "drop" -> IF o.i \in 1..Len(f.ups) THEN [f EXCEPT !.ups = Without(@, o.i)] ELSE f
    [] o.what = "dup" -> IF o.i \in 1..Len(f.ups) THEN [f EXCEPT !.ups = Append(@, f.ups[o.i])] ELSE f
    [] o.what = "swap" -> IF o.i \in 1..(Len(f.ups) - 1) THEN [f EXCEPT !.ups[o.i] = f.ups[o.i + 1], !.ups[o.i + 1] = f.ups[o.i]] ELSE f
    [] o.what = "badsig" -> IF o.i \in Places(f) THEN PutSigs(f, o.i, BadSig(SigsAt(f, o.i), o.s, o.x)) ELSE f
    [] o.what = "delsig" -> IF o.i \in Places(f) THEN LET x == SigsAt(f, o.i) IN PutSigs(f, o.i, [y \in DOMAIN x \ {o.s} |-> x[y]]) ELSE f
    [] o.what = "copysigs" -> IF o.i \in Places(f) /\ o.j \in Places(g) THEN PutSigs(f, o.i, SigsAt(g, o.j)) ELSE f
    [] o.what = "copydata" -> [f EXCEPT !.data = g.data, !.dty = g.dty, !.dv = g.dv, !.dc = g.dc, !.ds = g.ds]
    [] o.what = "copygen" -> [f EXCEPT !.glink = g.glink, !.gc = g.gc, !.gs = g.gs]
    [] o.what = "copyid" -> [f EXCEPT !.glink = g.glink, !.gc = g.gc, !.gs = g.gs, !.ty = g.ty, !.cuc = g.cuc, !.force = g.force, !.nonce = g.nonce]
    [] o.what = "copyups" -> [f EXCEPT !.ups = g.ups]
=============================================================================
