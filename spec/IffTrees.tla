------------------------------ MODULE IffTrees -----------------------------
(***************************************************************************)
(* Hierarchies put together chunk by chunk, in document order: the machine *)
(* with which the other models obtain every tree within their bounds.      *)
(*                                                                         *)
(*   Data     the data chunks (and application-defined ones) that occur    *)
(*   Groups   the groups that occur, as <<kind, type>>                     *)
(*   MaxChunks, MaxDepth                                                   *)
(*   Deltas   by how much the size of a group may be wrong; one group of a *)
(*            tree has a wrong size at most                                *)
(*                                                                         *)
(* Nothing is said about conformance: any chunk may occur in any group,    *)
(* except that a PROP directly in a LIST is always one of its PROPs, as    *)
(* reading has it.                                                         *)
(***************************************************************************)
EXTENDS IffForest

CONSTANTS Data, Groups, MaxChunks, MaxDepth, Deltas

VARIABLES open,   \* groups not complete yet, outermost first
          count,  \* number of chunks so far
          spoilt, \* whether a size is wrong
          tree    \* the complete tree, in a sequence of length 0 or 1

growing == <<open, count, spoilt, tree>>

Grown == tree # <<>>
Tree == tree[1]

GrowInit == open = <<>> /\ count = 0 /\ spoilt = FALSE /\ tree = <<>>

IdOfKind(k) == CASE k = "form" -> FORM [] k = "prop" -> PROPID [] k = "cat" -> CATID [] k = "list" -> LISTID

(* the groups gs after chunk c, complete, was put into the innermost one *)
With(gs, c) ==
  LET g == gs[Len(gs)]
  IN [gs EXCEPT ![Len(gs)] = IF g.k = "list" /\ c.k = "prop" THEN [g EXCEPT !.props = Append(@, c)] ELSE [g EXCEPT !.kids = Append(@, c)]]

(* PROPs of a LIST come first, as their place among the other chunks is not kept *)
MayHold(k) == IF open = <<>> THEN TRUE ELSE ~(open[Len(open)].k = "list" /\ k = "prop" /\ open[Len(open)].kids # <<>>)

Leaf ==
  /\ ~Grown /\ count < MaxChunks
  /\ \E d \in Data : IF open = <<>> THEN tree' = <<d>> /\ UNCHANGED open ELSE open' = With(open, d) /\ UNCHANGED tree
  /\ count' = count + 1
  /\ UNCHANGED spoilt
Open ==
  /\ ~Grown /\ count < MaxChunks /\ Len(open) < MaxDepth
  /\ \E g \in Groups : /\ MayHold(g[1])
                       /\ open' = Append(open, Node(IdOfKind(g[1]), g[1], 0, g[2], <<>>, <<>>, <<>>, <<>>))
  /\ count' = count + 1
  /\ UNCHANGED <<spoilt, tree>>
Close ==
  /\ ~Grown /\ open # <<>>
  /\ \E d \in Deltas \cup {0} :
       LET g == open[Len(open)]
           c == [g EXCEPT !.sz = Add32(GroupSize(g.props, g.kids), d)]
           rest == SubSeq(open, 1, Len(open) - 1)
       IN /\ d # 0 => ~spoilt
          /\ spoilt' = (spoilt \/ d # 0)
          /\ IF rest = <<>> THEN tree' = <<c>> /\ open' = <<>> ELSE open' = With(rest, c) /\ UNCHANGED tree
  /\ UNCHANGED count

(* for exporting every so-manieth tree *)
RECURSIVE Digest(_)
Digest(t) ==
  LET w(cs, a) == FoldLeft(LAMBDA x, i : (x * 5 + Digest(cs[i])) % 10007, a, [i \in 1..Len(cs) |-> i])
  IN (t.id[1] + 3 * t.id[4] + 5 * t.ty[1] + 7 * t.ty[4] + 11 * (t.sz % 1000) + 13 * Len(t.data) + 17 * w(t.props, 1) + w(t.kids, 2)) % 10007

Grow == Leaf \/ Open \/ Close
=============================================================================
