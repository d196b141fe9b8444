------------------------------ MODULE RealmView ------------------------------
(* The pages of a realm, as its users see them: a tree of pages (and tags) held in the DHT storage, several views on it,
   and what creating, editing, refreshing and looking up pages does. (C26)

   A state g is a record
     st  what is stored: a sequence of blobs, its index being the ID of the blob
     ck  per stored blob the sequence of the blobs attached to it
     rl  the stored version of the realm: [ver, http, tag] - the roots
     bd  the stored badge: [ver, who]
     vs  the views: [rl, pr, pg, pc, tr, tg, tc] - the realm as known, root of the pages, known pages, known attachments; the same for tags
   A blob is [k, ver, name, par, chi, txt, cond, cu]; k is "p" or "t", cu what it attaches to: 0 nothing, -1 it only allows attachments.
   All operations are functions of the state, so that they serve for model checking, generation and judging alike. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Unknown == 99
\* Conditions: 0 anybody, 1..4 this signer (nobody but himself knows the verifier of signer 4), 5 nobody, 12 one of 1, 2; 22 both; 14 one of 1, 4;
\* 41..43: whoever the badge says, in version 0 or later, exactly 1, at most 1.
Conds == {0, 1, 2, 3, 4, 5, 12, 22, 14, 41, 42, 43}
Named(g, c) == CASE c = 0 -> 1..4 [] c \in 1..4 -> {c} [] c = 5 -> {} [] c \in {12, 22} -> {1, 2} [] c = 14 -> {1, 4} [] c \in 41..43 -> {g.bd.who}
\* what remains of it for somebody who only has what is stored in the realm
Fits(g, c) == CASE c = 42 -> g.bd.ver = 1 [] c = 43 -> g.bd.ver <= 1 [] OTHER -> TRUE
Found(g, c) == IF c = 0 THEN 1..4 ELSE IF Fits(g, c) THEN Named(g, c) \ {4} ELSE {}
CanSign(g, c, S) == CASE c = 0 -> TRUE [] c = 5 -> FALSE [] c = 22 -> {1, 2} \subseteq S [] OTHER -> Found(g, c) \cap S # {}
\* an update must be signed by enough and by nobody else
Signs(g, c, S) == CanSign(g, c, S) /\ S \subseteq Found(g, c)

Has(s, x) == \E i \in DOMAIN s : s[i] = x
Elems(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
NoFun == [x \in {} |-> 0]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>

Blob(k, name, par, txt, cond, cu) == [k |-> k, ver |-> 0, name |-> name, par |-> par, chi |-> <<>>, txt |-> txt, cond |-> cond, cu |-> cu]
Attach(ck, b, id) == IF b.cu \in DOMAIN ck /\ ~Has(ck[b.cu], id) THEN [ck EXCEPT ![b.cu] = Append(@, id)] ELSE ck

\* Storing: only what is newer replaces what is there.
New(g, b) == LET id == Len(g.st) + 1 IN [g EXCEPT !.st = Append(@, b), !.ck = Attach(Append(@, <<>>), b, id)]
Save(g, id, b) == [g EXCEPT !.st = IF @[id].ver < b.ver THEN [@ EXCEPT ![id] = b] ELSE @]
\* ... and the view has what it stored, however old
SavePage(g, v, id, b) == [Save(g, id, b) EXCEPT !.vs[v].pg = Put(@, id, b)]

\* What a fetch of the blob with this ID brings: itself and what is attached to it, as far as it is of this kind.
Brings(g, k, id) == IF id \in DOMAIN g.st THEN SelectSeq(Append(g.ck[id], id), LAMBDA x : g.st[x].k = k) ELSE <<>>
RECURSIVE AddAll(_, _)
AddAll(s, xs) == IF xs = <<>> THEN s ELSE AddAll(IF Has(s, Head(xs)) THEN s ELSE Append(s, Head(xs)), Tail(xs))
FetchP(g, v, id) == LET b == Brings(g, "p", id) as == Without(b, id) w == g.vs[v] IN
  [g EXCEPT !.vs[v].pg = [x \in DOMAIN w.pg \cup Elems(b) |-> IF x \in Elems(b) THEN g.st[x] ELSE w.pg[x]],
            !.vs[v].pc = IF as = <<>> THEN w.pc ELSE Put(w.pc, id, AddAll(At(w.pc, id), as))]
FetchT(g, v, id) == LET b == Brings(g, "t", id) as == Without(b, id) w == g.vs[v] IN
  [g EXCEPT !.vs[v].tg = [x \in DOMAIN w.tg \cup Elems(b) |-> IF x \in Elems(b) THEN g.st[x] ELSE w.tg[x]],
            !.vs[v].tc = IF as = <<>> THEN w.tc ELSE Put(w.tc, id, AddAll(At(w.tc, id), as))]
RECURSIVE FetchPs(_, _, _), FetchTs(_, _, _), WalkP(_, _, _)
FetchPs(g, v, ids) == IF ids = {} THEN g ELSE LET id == CHOOSE x \in ids : TRUE IN FetchPs(FetchP(g, v, id), v, ids \ {id})
FetchTs(g, v, ids) == IF ids = {} THEN g ELSE LET id == CHOOSE x \in ids : TRUE IN FetchTs(FetchT(g, v, id), v, ids \ {id})
\* all there is to find from here
Links(g, v) == UNION {Elems(g.vs[v].pg[x].par) \cup Elems(g.vs[v].pg[x].chi) : x \in DOMAIN g.vs[v].pg} \cup DOMAIN g.vs[v].pg
WalkP(g, v, seen) == LET new == Links(g, v) \ seen IN IF new = {} THEN g ELSE WalkP(FetchPs(g, v, new), v, seen \cup new)

NoView == [rl |-> [ver |-> 0, http |-> 0, tag |-> 0], pr |-> 0, pg |-> NoFun, pc |-> NoFun, tr |-> 0, tg |-> NoFun, tc |-> NoFun]
Open(g, v) == LET w == [NoView EXCEPT !.rl = g.rl, !.pr = g.rl.http, !.tr = g.rl.tag] IN
  FetchT(FetchP([g EXCEPT !.vs[v] = w], v, g.rl.http), v, g.rl.tag)

\* The links from parents to children follow, wherever the view knows the parent and the signers may change it.
Follow(g, v, pid, id, add, S) == LET w == g.vs[v] IN
  IF pid \in DOMAIN w.pg
  THEN IF CanSign(g, w.pg[pid].cond, S)
       THEN SavePage(g, v, pid, [w.pg[pid] EXCEPT !.ver = @ + 1, !.chi = IF add THEN Append(Without(@, id), id) ELSE Without(@, id)])
       ELSE g
  ELSE g
RECURSIVE FollowAll(_, _, _, _, _, _)
FollowAll(g, v, pids, id, add, S) == IF pids = {} THEN g ELSE
  LET p == CHOOSE x \in pids : TRUE IN FollowAll(Follow(g, v, p, id, add, S), v, pids \ {p}, id, add, S)

Create(g, v, name, parent, cond, cu, S, txt) == LET id == Len(g.st) + 1 b == Blob("p", name, IF parent = 0 THEN <<>> ELSE <<parent>>, txt, cond, cu) IN
  IF ~(S \subseteq Named(g, cond)) THEN g ELSE
  LET h == New(g, b) IN Follow([h EXCEPT !.vs[v].pg = Put(@, id, b)], v, parent, id, TRUE, S)
CreateTag(g, v, name, parent, cond, cu, S) == LET id == Len(g.st) + 1 b == Blob("t", name, IF parent = 0 THEN <<>> ELSE <<parent>>, 0, cond, cu) IN
  IF ~(S \subseteq Named(g, cond)) THEN g ELSE [New(g, b) EXCEPT !.vs[v].tg = Put(@, id, b)]
CanEdit(g, v, id, S) == IF id \in DOMAIN g.vs[v].pg THEN Signs(g, g.vs[v].pg[id].cond, S) ELSE FALSE
\* b: the blob with the edited fields
Edit(g, v, id, f, S) == IF ~CanEdit(g, v, id, S) THEN g ELSE
  LET old == g.vs[v].pg[id]
      b == [old EXCEPT !.ver = @ + 1, !.name = f.name, !.txt = f.txt, !.par = f.par, !.chi = f.chi]
      h == SavePage(g, v, id, b)
      rm == FollowAll(h, v, Elems(old.par) \ Elems(b.par), id, FALSE, S)
  IN FollowAll(rm, v, Elems(b.par) \ Elems(old.par), id, TRUE, S)
CanService(g, v, rc, S) == Signs(g, rc, S)
Service(g, v, what, id, rc, S) == IF ~CanService(g, v, rc, S) THEN g ELSE
  LET r == [g.vs[v].rl EXCEPT !.ver = @ + 1, !.http = IF what = "http" THEN id ELSE @, !.tag = IF what = "tag" THEN id ELSE @] IN
  [g EXCEPT !.vs[v].rl = r, !.rl = IF @.ver < r.ver THEN r ELSE @]

\* The full path of a page: the names from its first parents; <<>> if there is none, because a parent is not known or the parents run in a circle.
RECURSIVE FullPath(_, _, _)
FullPath(w, id, seen) ==
  IF id \in seen \/ id \notin DOMAIN w.pg THEN <<>>
  ELSE LET p == w.pg[id] IN
       IF p.par = <<>> THEN <<p.name>>
       ELSE LET up == FullPath(w, p.par[1], seen \cup {id}) IN IF up = <<>> THEN <<>> ELSE Append(up, p.name)
\* All pages to be found under a path: from the root and what is attached to it, over the children and what is attached to them.
RECURSIVE Cands(_, _, _)
Cands(w, path, curr) ==
  IF path = <<>> THEN {} ELSE
  LET ids == curr \cup UNION {Elems(At(w.pc, x)) : x \in curr}
      hit == {x \in ids \cap DOMAIN w.pg : w.pg[x].name = path[1]}
  IN IF Len(path) = 1 THEN hit ELSE Cands(w, Tail(path), UNION {Elems(w.pg[x].chi) : x \in hit})
Lookup(w, path) == Cands(w, path, {w.pr})

Start(root, cond, cu) == [st |-> <<Blob("p", root, <<>>, 0, cond, cu), Blob("t", "t", <<>>, 0, 0, -1)>>, ck |-> <<<<>>, <<>>>>,
   rl |-> [ver |-> 1, http |-> 1, tag |-> 2], vs |-> <<NoView, NoView>>, bd |-> [ver |-> 0, who |-> 1]]

\* One operation o; rc is the condition of the realm.
SetOf(s) == Elems(s)
Apply(g, o, rc) == CASE
     o.op = "create" -> Create(g, o.v, o.name, o.parent, o.cond, o.cu, SetOf(o.s), o.txt)
  [] o.op = "ctag" -> CreateTag(g, o.v, o.name, o.parent, o.cond, o.cu, SetOf(o.s))
  [] o.op = "edit" -> Edit(g, o.v, o.id, o, SetOf(o.s))
  [] o.op = "service" -> Service(g, o.v, o.what, o.id, rc, SetOf(o.s))
  [] o.op \in {"fetch", "attached"} -> FetchP(g, o.v, o.id)
  [] o.op = "ftag" -> FetchT(g, o.v, o.id)
  [] o.op = "refresh" -> FetchPs(g, o.v, DOMAIN g.vs[o.v].pg)
  [] o.op = "rtags" -> FetchTs(g, o.v, DOMAIN g.vs[o.v].tg)
  [] o.op = "realm" -> [g EXCEPT !.vs[o.v].rl = g.rl]
  [] o.op = "all" -> [FetchTs(FetchPs(g, o.v, DOMAIN g.vs[o.v].pg), o.v, DOMAIN g.vs[o.v].tg) EXCEPT !.vs[o.v].rl = g.rl]
  [] o.op = "walk" -> WalkP(g, o.v, {})
  [] o.op = "open" -> Open(g, o.v)
  [] o.op = "look" -> g
  [] o.op = "badge" -> [g EXCEPT !.bd = [ver |-> @.ver + 1, who |-> o.who]]
\* whether it reports success
Works(g, o, rc) == CASE
     o.op \in {"create", "ctag"} -> SetOf(o.s) \subseteq Named(g, o.cond)
  [] o.op = "edit" -> CanEdit(g, o.v, o.id, SetOf(o.s))
  [] o.op = "service" -> CanService(g, o.v, rc, SetOf(o.s))
  [] OTHER -> TRUE
Ops == {"create", "ctag", "edit", "service", "fetch", "attached", "ftag", "refresh", "rtags", "realm", "all", "walk", "open", "look", "badge"}
=============================================================================
