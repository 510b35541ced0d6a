----------------------------- MODULE IffForest -----------------------------
(***************************************************************************)
(* Hierarchies with identity.  The chunks an application holds form a      *)
(* forest; a chunk in it is a record as in IffCore with two more fields:   *)
(* n, its identity, and par, the identity of the group it is linked to (0  *)
(* for none).  The operators below say what the functions of the library   *)
(* that build, change and inspect hierarchies do to such trees.            *)
(***************************************************************************)
EXTENDS IffCore

TNode(n, par, id, k, sz, ty, props, kids, data, ext) ==
  [n |-> n, par |-> par, id |-> id, k |-> k, sz |-> sz, ty |-> ty, props |-> props, kids |-> kids, data |-> data, ext |-> ext]

BadNode == TNode(-1, -1, ZeroId, "bad", 0, ZeroId, <<>>, <<>>, <<>>, <<>>)

(* the value of a tree, without identities *)
RECURSIVE Plain(_)
Plain(t) == Node(t.id, t.k, t.sz, t.ty,
                 TLCEval([i \in 1..Len(t.props) |-> Plain(t.props[i])]), TLCEval([i \in 1..Len(t.kids) |-> Plain(t.kids[i])]), t.data, t.ext)

(* a tree out of a value: identities are given by position, starting after base *)
RECURSIVE Count(_)
Count(v) == 1 + FoldLeft(LAMBDA a, c : a + Count(c), 0, v.props) + FoldLeft(LAMBDA a, c : a + Count(c), 0, v.kids)

RECURSIVE Identify(_, _, _)
IdentifyAll(cs, par, base) ==
  LET before(i) == FoldLeft(LAMBDA a, c : a + Count(c), 0, SubSeq(cs, 1, i - 1))
  IN [i \in 1..Len(cs) |-> Identify(cs[i], par, base + before(i))]
Identify(v, par, base) ==
  LET np == FoldLeft(LAMBDA a, c : a + Count(c), 0, v.props)
  IN TNode(base + 1, par, v.id, v.k, v.sz, v.ty,
           IdentifyAll(v.props, base + 1, base + 1), IdentifyAll(v.kids, base + 1, base + 1 + np), v.data, v.ext)

RECURSIVE Ids(_)
Ids(t) == {t.n} \cup UNION {Ids(t.props[i]) : i \in 1..Len(t.props)} \cup UNION {Ids(t.kids[i]) : i \in 1..Len(t.kids)}

(* every chunk is a live object with its whole payload *)
RECURSIVE Sound(_)
Sound(t) == /\ t.k # "bad"
            /\ \A i \in 1..Len(t.props) : Sound(t.props[i])
            /\ \A i \in 1..Len(t.kids) : Sound(t.kids[i])

(* every chunk is linked to the group that holds it *)
RECURSIVE Linked(_, _)
Linked(t, par) == /\ t.par = par
                  /\ \A i \in 1..Len(t.props) : Linked(t.props[i], t.n)
                  /\ \A i \in 1..Len(t.kids) : Linked(t.kids[i], t.n)

(* the sub tree with identity n: a sequence of length 0 or 1 *)
RECURSIVE At(_, _)
At(t, n) ==
  IF t.n = n THEN <<t>>
  ELSE Flatten([i \in 1..Len(t.props) |-> At(t.props[i], n)]) \o Flatten([i \in 1..Len(t.kids) |-> At(t.kids[i], n)])

(* the chunks from the root to n *)
RECURSIVE PathTo(_, _)
PathTo(t, n) ==
  IF t.n = n THEN <<t>>
  ELSE LET sub == Flatten([i \in 1..Len(t.props) |-> PathTo(t.props[i], n)]) \o Flatten([i \in 1..Len(t.kids) |-> PathTo(t.kids[i], n)])
       IN IF sub = <<>> THEN <<>> ELSE <<t>> \o sub

(* t with the chunk n replaced by new *)
RECURSIVE Change(_, _, _)
Change(t, n, new) ==
  IF t.n = n THEN new
  ELSE [t EXCEPT !.props = TLCEval([i \in 1..Len(t.props) |-> Change(t.props[i], n, new)]), !.kids = TLCEval([i \in 1..Len(t.kids) |-> Change(t.kids[i], n, new)])]

---------------------------------------------------------------------------
(* Building                                                                *)

(* the group g after chunk c (a root) was added behind its other sub chunks *)
Attached(g, c) == [g EXCEPT !.kids = Append(@, [c EXCEPT !.par = g.n])]
Added(g, c) == [Attached(g, c) EXCEPT !.sz = Add32(@, Space(c.sz))]
PropAdded(g, c) == [g EXCEPT !.props = Append(@, [c EXCEPT !.par = g.n]), !.sz = Add32(@, Space(c.sz))]
Tracked(g, c) == [Added(g, c) EXCEPT !.ty = TrackType(g.ty, Len(g.kids), c.id, c.ty)]

AddFns == {"addToForm", "addToCAT", "addToList", "addToProp", "addToGroup", "attachToGroup", "addPropToList",
           "addToCATAndUpdateContentsType", "addToListAndUpdateContentsType"}
Tracking == {"addToCATAndUpdateContentsType", "addToListAndUpdateContentsType"}

AddedBy(fn, g, c) ==
  CASE fn = "attachToGroup" -> Attached(g, c)
    [] fn = "addPropToList" -> PropAdded(g, c)
    [] fn \in Tracking -> Tracked(g, c)
    [] OTHER -> Added(g, c)

(* Taking the chunk n out of its group, which an application does by itself: nothing else changes *)
RECURSIVE Without(_, _)
Without(t, n) ==
  LET rest(s) == SelectSeq(s, LAMBDA x : x.n # n)
      ps == rest(t.props) ks == rest(t.kids)
  IN [t EXCEPT !.props = TLCEval([i \in 1..Len(ps) |-> Without(ps[i], n)]), !.kids = TLCEval([i \in 1..Len(ks) |-> Without(ks[i], n)])]

(* Recalculating: the chunk n, if it is a group, and every group around it get the size of *)
(* their contents                                                                          *)
Fixed(t) == IF t.k \in GroupKinds THEN [t EXCEPT !.sz = GroupSize(t.props, t.kids)] ELSE t
RECURSIVE Recalc(_, _)
Recalc(t, n) ==
  IF t.n = n THEN Fixed(t)
  ELSE IF n \in Ids(t)
       THEN Fixed([t EXCEPT !.props = TLCEval([i \in 1..Len(t.props) |-> Recalc(t.props[i], n)]), !.kids = TLCEval([i \in 1..Len(t.kids) |-> Recalc(t.kids[i], n)])])
       ELSE t

---------------------------------------------------------------------------
(* Searching                                                               *)

RECURSIVE Search(_, _)
Search(t, types) ==
  IF t.k = "form" /\ t.ty \in types THEN <<t.n>>
  ELSE IF t.k \in {"form", "cat", "list"} THEN Flatten([i \in 1..Len(t.kids) |-> Search(t.kids[i], types)])
  ELSE <<>>

FirstWith(cs, P(_)) == LET s == {i \in 1..Len(cs) : P(cs[i])} IN IF s = {} THEN <<>> ELSE <<cs[Min(s)]>>
KidWithId(g, id) == FirstWith(g.kids, LAMBDA c : c.id = id)

(* outwards along path (root first) from its last element *)
RECURSIVE Shared(_, _, _)
Shared(path, ty, id) ==
  IF path = <<>> THEN <<>>
  ELSE LET l == path[Len(path)]
           p == IF l.k = "list" THEN FirstWith(l.props, LAMBDA q : q.ty = ty) ELSE <<>>
           r == IF p = <<>> THEN <<>> ELSE KidWithId(p[1], id)
       IN IF r # <<>> THEN r ELSE Shared(SubSeq(path, 1, Len(path) - 1), ty, id)

(* the chunk with identifier id that is in force in the FORM n of tree t *)
Lookup(t, n, id) ==
  LET path == PathTo(t, n)
      form == path[Len(path)]
      own  == KidWithId(form, id)
  IN IF own # <<>> THEN own ELSE Shared(SubSeq(path, 1, Len(path) - 1), form.ty, id)

AllKids(t, n, id) == LET g == At(t, n)[1] IN SelectSeq(g.kids, LAMBDA c : c.id = id)

=============================================================================
