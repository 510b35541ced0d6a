----------------------------- MODULE IffChecker ----------------------------
(***************************************************************************)
(* Checking as a state machine.  One chunk is visited per step, in         *)
(* document order with an explicit list of chunks still to visit, together *)
(* with what is known of the group that holds them; the first violation    *)
(* ends it with one report.  The rules are given here one by one, chunk by *)
(* chunk, from the point of view of the chunk and its holder, as the       *)
(* standard has them, whereas Conforms (IffCore) states them as properties *)
(* of whole hierarchies from the point of view of the holder.  The theorem *)
(* is that both agree on every hierarchy within the bounds.                *)
(***************************************************************************)
EXTENDS IffTrees

VARIABLES todo, reports, verdict
vars == <<growing, todo, reports, verdict>>

Entry(c, holder, htype) == [c |-> c, holder |-> holder, htype |-> htype]

Init == /\ GrowInit
        /\ todo = <<>> /\ reports = 0 /\ verdict = "none"
Begin ==
  /\ verdict = "none" /\ Grown
  /\ todo' = <<Entry(Tree, "none", ZeroId)>> /\ verdict' = "open"
  /\ UNCHANGED <<growing, reports>>

(* the rules for a chunk c in a holder of the given kind and type *)
Upper(c) == ~(c \in 97..122)
NoDot(c) == c # 46
CharOk(c) == c \in 32..126
IdRule(c) == CharOk(c.id[1]) /\ CharOk(c.id[2]) /\ CharOk(c.id[3]) /\ CharOk(c.id[4]) /\ c.id[1] # 32
TypeId(c) == IdRule([id |-> c.ty])
NotReserved(ty) ==
  LET stem == SubSeq(ty, 1, 3) IN
  /\ ty # JJJJ /\ ty # PROPID
  /\ stem \notin {SubSeq(LISTID, 1, 3), SubSeq(FORM, 1, 3), SubSeq(CATID, 1, 3)}
     \/ (stem = SubSeq(LISTID, 1, 3) /\ ty[4] # LISTID[4] /\ ty[4] \notin 49..57)
     \/ (stem = SubSeq(FORM, 1, 3) /\ ty[4] # FORM[4] /\ ty[4] \notin 49..57)
     \/ (stem = SubSeq(CATID, 1, 3) /\ ty[4] # CATID[4] /\ ty[4] \notin 49..57)
FormTypeRule(c) == c.k \in {"form", "prop"} => TypeId(c) /\ NotReserved(c.ty) /\ \A i \in 1..4 : Upper(c.ty[i]) /\ NoDot(c.ty[i])
ContentsRule(c) == c.k \in {"cat", "list"} => TypeId(c)
SubSizes(c) == [i \in 1..(Len(c.props) + Len(c.kids)) |-> IF i <= Len(c.props) THEN c.props[i].sz ELSE c.kids[i - Len(c.props)].sz]
RECURSIVE Total(_, _)
Total(s, i) == IF i > Len(s) THEN 0 ELSE 8 + s[i] + (s[i] % 2) + Total(s, i + 1)
SizeRule(c) == c.k \in GroupKinds => c.sz = 4 + Total(SubSizes(c), 1)
PlaceRule(c, holder, htype) ==
  CASE holder = "none" -> c.k \in {"form", "cat", "list"}            \* the main chunk
    [] holder = "form" -> c.k # "prop"
    [] holder = "prop" -> c.k \notin GroupKinds                      \* data chunks only
    [] holder = "listprop" -> c.k = "prop"
    [] holder \in {"cat", "list"} -> c.k \in {"form", "cat", "list"} /\ (htype = JJJJ \/ c.ty = htype)
OwnRule(c) == c.k \in ExtKinds => ExtLegal(c.k, c.ext)

Fine(e) == IdRule(e.c) /\ FormTypeRule(e.c) /\ ContentsRule(e.c) /\ SizeRule(e.c) /\ PlaceRule(e.c, e.holder, e.htype) /\ OwnRule(e.c)

Subs(c) == [i \in 1..Len(c.props) |-> Entry(c.props[i], "listprop", c.ty)] \o [i \in 1..Len(c.kids) |-> Entry(c.kids[i], c.k, c.ty)]

Visit ==
  /\ verdict = "open" /\ todo # <<>>
  /\ IF Fine(Head(todo))
     THEN todo' = Subs(Head(todo).c) \o Tail(todo) /\ UNCHANGED <<reports, verdict>>
     ELSE verdict' = "no" /\ reports' = reports + 1 /\ UNCHANGED todo
  /\ UNCHANGED growing
Accept == verdict = "open" /\ todo = <<>> /\ verdict' = "yes" /\ UNCHANGED <<growing, todo, reports>>

Next == (Grow /\ UNCHANGED <<todo, reports, verdict>>) \/ Begin \/ Visit \/ Accept
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* C06: the verdict is what the rules say *)
Decided == verdict \in {"yes", "no"}
VerdictRight == Decided => ((verdict = "yes") = Conforms(Tree))
(* a hierarchy is refused exactly if there is a violation to name *)
ViolationsRight == Decided => (ChunkConforms(Tree) = (Violations(Tree) = {}))
(* C18: silent if accepted, a report if refused *)
ReportsRight == (verdict = "yes" => reports = 0) /\ (verdict = "no" => reports > 0)
=============================================================================
