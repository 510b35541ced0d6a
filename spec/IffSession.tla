----------------------------- MODULE IffSession ----------------------------
(***************************************************************************)
(* An application that creates chunks, adds them to groups (with and       *)
(* without tracking the contents type), changes sizes and payloads behind  *)
(* the back of the groups, recalculates sizes, copies the outcome by       *)
(* writing and reading it, moves chunks, and frees hierarchies, in any     *)
(* order.                                                                  *)
(*                                                                         *)
(* State: the forest (a function from the identity of each root to its     *)
(* tree, see IffForest), and what is allocated.  Ghost variables remember  *)
(* where sizes were changed and not recalculated, which groups were filled *)
(* with tracking only, and what each group was given, in order.            *)
(***************************************************************************)
EXTENDS IffForest, Functions

CONSTANTS NewGroups,   \* what may be created: <<function, kind, type>>
          NewData,     \* payloads of raw chunks that may be created
          DataId,
          AddsUsed,    \* functions used to add chunks
          PokedSizes, NewPayloads,
          Moves,       \* members may be taken out of a group and added to another one
          MaxNodes, MaxOps

VARIABLES trees, live, next,
          dirty,    \* chunks whose size, or whose sub chunks, were changed without recalculating since
          tracked,  \* groups created empty and filled by tracking functions only
          given,    \* for each group: the identities of what was added, in order
          nops, hist

state == <<trees, live, next, dirty, tracked, given>>
vars == <<state, nops, hist>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
NoFn == [x \in {} |-> 0]

Init == trees = NoFn /\ live = {} /\ next = 1 /\ dirty = {} /\ tracked = {} /\ given = NoFn /\ nops = 0 /\ hist = <<>>

Roots == DOMAIN trees
RootOf(n) == CHOOSE r \in Roots : n \in Ids(trees[r])
ChunkOf(n) == At(trees[RootOf(n)], n)[1]
Linkd == UNION {Ids(trees[r]) : r \in Roots}

Do(op) == nops < MaxOps /\ nops' = nops + 1 /\ hist' = Append(hist, op)

IdOfKind(k) == CASE k = "form" -> FORM [] k = "prop" -> PROPID [] k = "cat" -> CATID [] k = "list" -> LISTID

CreateGroup ==
  \E g \in NewGroups :
    /\ next <= MaxNodes
    /\ trees' = Put(trees, next, TNode(next, 0, IdOfKind(g[2]), g[2], 4, g[3], <<>>, <<>>, <<>>, <<>>))
    /\ live' = live \cup {next} /\ next' = next + 1
    /\ tracked' = IF g[1] \in {"createEmptyCAT", "createEmptyList"} THEN tracked \cup {next} ELSE tracked
    /\ given' = Put(given, next, <<>>)
    /\ UNCHANGED dirty
    /\ Do(<<"mk", g[1], next, g[3]>>)

CreateData ==
  \E d \in NewData :
    /\ next <= MaxNodes
    /\ trees' = Put(trees, next, TNode(next, 0, DataId, "raw", Len(d), ZeroId, <<>>, <<>>, d, <<>>))
    /\ live' = live \cup {next} /\ next' = next + 1
    /\ UNCHANGED <<dirty, tracked, given>>
    /\ Do(<<"mk", "createRawChunk", next, DataId, d>>)

Fitting(fn, g, c) ==
  CASE fn = "addToForm" -> g.k = "form"
    [] fn = "addToProp" -> g.k = "prop"
    [] fn = "addToCAT" -> g.k = "cat"
    [] fn = "addToCATAndUpdateContentsType" -> g.k = "cat"
    [] fn = "addToList" -> g.k = "list" /\ c.k # "prop"
    [] fn = "addToListAndUpdateContentsType" -> g.k = "list" /\ c.k # "prop"
    [] fn = "addPropToList" -> g.k = "list" /\ c.k = "prop"
    [] fn = "addToGroup" -> g.k \in GroupKinds /\ ~(g.k = "list" /\ c.k = "prop")

Add ==
  \E fn \in AddsUsed, p \in DOMAIN given, cn \in Roots :
    /\ p \in live /\ cn # RootOf(p)
    /\ LET t == trees[RootOf(p)]
           g == ChunkOf(p)
           c == trees[cn]
       IN /\ Fitting(fn, g, c)
          /\ trees' = Put(Drop(trees, cn), RootOf(p), Change(t, p, AddedBy(fn, g, c)))
          /\ given' = Put(given, p, Append(given[p], <<cn, c.ty>>))
          /\ tracked' = IF fn \in Tracking \/ fn = "addPropToList" THEN tracked ELSE tracked \ {p}
          \* the groups around p do not learn about the growth of p
          /\ dirty' = IF g.par # 0 THEN dirty \cup {p} ELSE dirty
          /\ UNCHANGED <<live, next>>
          /\ Do(<<"add", fn, p, cn>>)

(* a member that is taken out of its group, which keeps its size, and added to another group of the hierarchy *)
Move ==
  \E fn \in AddsUsed, p \in DOMAIN given, cn \in live \ Roots :
    /\ Moves /\ RootOf(p) = RootOf(cn)
    /\ LET t == trees[RootOf(p)]
           c == ChunkOf(cn)
           rest == Without(t, cn)
       IN /\ p \notin Ids(c) /\ Fitting(fn, ChunkOf(p), c)
          /\ trees' = Put(trees, RootOf(p), Change(rest, p, AddedBy(fn, At(rest, p)[1], c)))
          /\ given' = LET g == [given EXCEPT ![c.par] = SelectSeq(@, LAMBDA x : x[1] # cn)] IN [g EXCEPT ![p] = Append(@, <<cn, c.ty>>)]
          /\ tracked' = (IF fn \in Tracking \/ fn = "addPropToList" THEN tracked ELSE tracked \ {p}) \ {c.par}
          /\ dirty' = dirty \cup {c.par, p}
          /\ UNCHANGED <<live, next>>
          /\ Do(<<"move", fn, p, cn>>)

Poke ==
  \E n \in live, v \in PokedSizes :
    LET t == trees[RootOf(n)] c == ChunkOf(n)
    IN /\ c.k \in GroupKinds /\ c.sz # v
       /\ trees' = Put(trees, RootOf(n), Change(t, n, [c EXCEPT !.sz = v]))
       /\ dirty' = dirty \cup {n}
       /\ UNCHANGED <<live, next, tracked, given>>
       /\ Do(<<"poke", n, v>>)

SetPayload ==
  \E n \in live, d \in NewPayloads :
    LET t == trees[RootOf(n)] c == ChunkOf(n)
    IN /\ c.k = "raw" /\ c.data # d
       /\ trees' = Put(trees, RootOf(n), Change(t, n, [c EXCEPT !.data = d, !.sz = Len(d)]))
       /\ dirty' = dirty \cup {n}
       /\ UNCHANGED <<live, next, tracked, given>>
       /\ Do(<<"setraw", n, d>>)

(* recalculating starts at the chunk and goes outwards along the parent links, one group per step *)
RECURSIVE UpFrom(_, _)
UpFrom(t, n) ==
  IF n = 0 THEN t
  ELSE LET c == At(t, n)[1]
       IN UpFrom(Change(t, n, Fixed(c)), c.par)
Update ==
  \E n \in live :
    LET r == RootOf(n)
    IN /\ dirty # {}
       /\ trees' = Put(trees, r, UpFrom(trees[r], n))
       /\ dirty' = dirty \ {n}
       /\ UNCHANGED <<live, next, tracked, given>>
       /\ Do(<<"update", n>>)

Free ==
  \E r \in Roots :
    /\ live' = live \ Ids(trees[r])
    /\ dirty' = dirty \ Ids(trees[r])
    /\ tracked' = tracked \ Ids(trees[r])
    /\ given' = [x \in DOMAIN given \ Ids(trees[r]) |-> given[x]]
    /\ trees' = Drop(trees, r)
    /\ UNCHANGED next
    /\ Do(<<"free", r>>)

Next == nops < MaxOps /\ (CreateGroup \/ CreateData \/ Add \/ Move \/ Poke \/ SetPayload \/ Update \/ Free)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* C11: every sub chunk is linked to its group; what was added is there, in the order of adding *)
LinksRight == \A r \in Roots : Linked(trees[r], 0) /\ trees[r].n = r
ContentsRight ==
  \A g \in DOMAIN given :
    LET c == ChunkOf(g) order == [i \in 1..Len(given[g]) |-> given[g][i][1]] nums(s) == [i \in 1..Len(s) |-> s[i].n]
    IN /\ SelectSeq(order, LAMBDA x : \E i \in 1..Len(c.props) : c.props[i].n = x) = nums(c.props)
       /\ SelectSeq(order, LAMBDA x : \E i \in 1..Len(c.kids) : c.kids[i].n = x) = nums(c.kids)
       /\ Len(given[g]) = Len(c.props) + Len(c.kids)
(* C11, C12: sizes are right wherever nothing was changed without recalculating *)
SizesRight == dirty = {} => \A r \in Roots : Consistent(Plain(trees[r]))
RECURSIVE BadSizes(_)
BadSizes(t) ==
  (IF t.k \in GroupKinds /\ t.sz # GroupSize(t.props, t.kids) THEN {t.n} ELSE {})
  \cup UNION {BadSizes(t.props[i]) : i \in 1..Len(t.props)} \cup UNION {BadSizes(t.kids[i]) : i \in 1..Len(t.kids)}
(* a wrong size is that of a chunk that was changed, or of a group around one *)
WrongOnlyAbove == \A r \in Roots : \A n \in BadSizes(trees[r]) : \E d \in dirty : d \in Ids(At(trees[r], n)[1])
(* C13: the common type the members had when they were added, or JJJJ *)
TypesRight ==
  \A g \in tracked :
    LET c == ChunkOf(g)
        members == {given[g][i][2] : i \in {j \in 1..Len(given[g]) : \E m \in 1..Len(c.kids) : c.kids[m].n = given[g][j][1]}}
    IN (\A i \in 1..Len(c.kids) : c.kids[i].id \in MemberIds) =>
         c.ty = (IF Cardinality(members) = 1 THEN (CHOOSE m \in members : TRUE) ELSE JJJJ)
(* C17: what is allocated is what is in the forest, each chunk in one place *)
OwnersRight ==
  /\ Linkd = live
  /\ \A r, s \in Roots : r # s => Ids(trees[r]) \cap Ids(trees[s]) = {}
  /\ \A r \in Roots : Cardinality(Ids(trees[r])) = Count(Plain(trees[r]))
(* recalculating does what C12 says, in one go *)
UpdateRight == [][\A n \in live : (Len(hist') > Len(hist) /\ hist'[Len(hist')] = <<"update", n>>) => trees'[RootOf(n)] = Recalc(trees[RootOf(n)], n)]_vars
=============================================================================
