---------------------------- MODULE IffSearcher ----------------------------
(***************************************************************************)
(* Searching for FORMs by type, and looking up a chunk of a FORM, as       *)
(* machines that walk step by step: the search with a list of chunks still *)
(* to visit, the lookup outwards along parent links, a group at a time and *)
(* a candidate at a time.                                                  *)
(*                                                                         *)
(* The theorems compare their results with declarative definitions over    *)
(* the places of a tree (which chunk encloses which), as the properties    *)
(* C09 and C10 are worded, and with the operators Search and Lookup of     *)
(* IffForest, with which executions are judged.                            *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANTS TypeSets,  \* sets of types to search for
          Wanted     \* identifiers to look up

VARIABLES t,      \* the tree, with identities
          mode,   \* "none", "search", "lookup", "done"
          types, todo, found,      \* searching
          form, id, at, cand, got  \* looking up: where, what, the group reached (0: none), candidates in it, result

svars == <<t, mode, types, todo, found, form, id, at, cand, got>>
vars == <<growing, svars>>

Nothing == [n |-> 0]
Init == GrowInit /\ t = Nothing /\ mode = "none" /\ types = {} /\ todo = <<>> /\ found = <<>>
        /\ form = 0 /\ id = ZeroId /\ at = 0 /\ cand = <<>> /\ got = <<>>

ChunkAt(n) == At(t, n)[1]
FormsIn(tr) == {n \in Ids(tr) : At(tr, n)[1].k = "form"}

Begin ==
  /\ Grown /\ mode = "none"
  /\ LET tr == TLCEval(Identify(Tree, 0, 0))
     IN /\ t' = tr
        /\ \/ /\ mode' = "search" /\ types' \in TypeSets /\ todo' = <<tr>>
              /\ UNCHANGED <<form, id, at, cand>>
           \/ /\ mode' = "lookup" /\ form' \in FormsIn(tr) /\ id' \in Wanted
              /\ at' = form' /\ cand' = At(tr, form')[1].kids
              /\ UNCHANGED <<types, todo>>
  /\ UNCHANGED <<growing, found, got>>

(* a FORM of one of the types is a result and is not looked into; PROPs and data chunks are passed over *)
Step ==
  /\ mode = "search" /\ todo # <<>>
  /\ LET c == Head(todo)
     IN CASE c.k = "form" /\ c.ty \in types -> found' = Append(found, c.n) /\ todo' = Tail(todo)
          [] c.k \in {"form", "cat", "list"} /\ ~(c.k = "form" /\ c.ty \in types) -> todo' = c.kids \o Tail(todo) /\ UNCHANGED found
          [] OTHER -> todo' = Tail(todo) /\ UNCHANGED found
  /\ UNCHANGED <<growing, t, mode, types, form, id, at, cand, got>>
SearchEnd == mode = "search" /\ todo = <<>> /\ mode' = "done" /\ UNCHANGED <<growing, t, types, todo, found, form, id, at, cand, got>>

(* candidates are the chunks of one FORM or PROP; when they are used up the next group outwards is tried *)
Try ==
  /\ mode = "lookup" /\ cand # <<>>
  /\ IF Head(cand).id = id THEN got' = <<Head(cand).n>> /\ mode' = "done" /\ UNCHANGED cand
     ELSE cand' = Tail(cand) /\ UNCHANGED <<got, mode>>
  /\ UNCHANGED <<growing, t, types, todo, found, form, id, at>>
Outwards ==
  /\ mode = "lookup" /\ cand = <<>>
  /\ LET up == ChunkAt(at).par
     IN IF up = 0 THEN mode' = "done" /\ UNCHANGED <<at, cand>>
        ELSE LET g == ChunkAt(up)
                 ps == SelectSeq(g.props, LAMBDA p : p.ty = ChunkAt(form).ty)
             IN at' = up /\ cand' = (IF g.k = "list" /\ ps # <<>> THEN ps[1].kids ELSE <<>>) /\ UNCHANGED mode
  /\ UNCHANGED <<growing, t, types, todo, found, form, id, got>>

Next == (Grow /\ UNCHANGED svars) \/ Begin \/ Step \/ SearchEnd \/ Try \/ Outwards
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Places.  Identities are given in document order, hence comparing them compares places. *)
Encloses(a, b) == b # a /\ b \in Ids(ChunkAt(a))
Matching == {n \in Ids(t) : ChunkAt(n).k = "form" /\ ChunkAt(n).ty \in types}
Visible(n) == \A a \in Ids(t) : Encloses(a, n) => a \notin Matching /\ ChunkAt(a).k # "prop"
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

SearchRight ==
  (mode = "done" /\ form = 0) =>
     /\ found = InOrder({n \in Matching : Visible(n)})
     /\ found = Search(t, types)

(* the enclosing LISTs, innermost first *)
Lists == LET S == {a \in Ids(t) : Encloses(a, form) /\ ChunkAt(a).k = "list"} IN SetToSortSeq(S, LAMBDA a, b : a > b)
Firsts(cs, P(_)) == LET S == {i \in 1..Len(cs) : P(cs[i])} IN IF S = {} THEN <<>> ELSE <<cs[Min(S)]>>
Own == Firsts(ChunkAt(form).kids, LAMBDA c : c.id = id)
FromList(l) == LET p == Firsts(ChunkAt(l).props, LAMBDA q : q.ty = ChunkAt(form).ty)
               IN IF p = <<>> THEN <<>> ELSE Firsts(p[1].kids, LAMBDA c : c.id = id)
Expected ==
  IF Own # <<>> THEN Own
  ELSE LET S == {i \in 1..Len(Lists) : FromList(Lists[i]) # <<>>}
       IN IF S = {} THEN <<>> ELSE FromList(Lists[Min(S)])
LookupRight ==
  (mode = "done" /\ form # 0) =>
     /\ got = [i \in 1..Len(Expected) |-> Expected[i].n]
     /\ Lookup(t, form, id) = Expected
     /\ AllKids(t, form, id) = SelectSeq(ChunkAt(form).kids, LAMBDA c : c.id = id)
IdentitiesRight == mode = "done" => Linked(t, 0) /\ Plain(t) = Tree /\ Ids(t) = 1..count
=============================================================================
