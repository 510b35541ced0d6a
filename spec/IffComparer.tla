---------------------------- MODULE IffComparer ----------------------------
(***************************************************************************)
(* Comparing two hierarchies as a machine that walks through both in step  *)
(* and stops at the first difference.  Both hierarchies are put together   *)
(* chunk by chunk, so that every pair within the bounds is compared.  The  *)
(* theorem: the outcome is equality of the two trees (C08), whichever is   *)
(* given first.                                                            *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANTS Data2, Groups2

VARIABLES open2, count2, spoilt2, tree2, \* the second tree
          pairs,                         \* pairs of chunks to compare
          outcome                        \* "none", "run", "equal", "different"

O == INSTANCE IffTrees WITH open <- open2, count <- count2, spoilt <- spoilt2, tree <- tree2, Data <- Data2, Groups <- Groups2

second == <<open2, count2, spoilt2, tree2>>
vars == <<growing, second, pairs, outcome>>

Init == GrowInit /\ O!GrowInit /\ pairs = <<>> /\ outcome = "none"

Begin == /\ Grown /\ O!Grown /\ outcome = "none"
         /\ pairs' = << <<Tree, O!Tree>> >> /\ outcome' = "run" /\ UNCHANGED <<growing, second>>

Pairs(as, bs) == [i \in 1..Len(as) |-> <<as[i], bs[i]>>]

Step ==
  /\ outcome = "run" /\ pairs # <<>>
  /\ LET a == pairs[1][1]
         b == pairs[1][2]
         same == IF a.id # b.id \/ a.sz # b.sz \/ a.k # b.k THEN FALSE
                 ELSE CASE a.k = "raw" -> \A i \in 1..Len(a.data) : a.data[i] = b.data[i] \* as many as the size says
                        [] a.k \in GroupKinds -> a.ty = b.ty /\ Len(a.props) = Len(b.props) /\ Len(a.kids) = Len(b.kids)
                        [] OTHER -> a.ext = b.ext
     IN IF same THEN pairs' = (IF a.k \in GroupKinds THEN Pairs(a.props, b.props) \o Pairs(a.kids, b.kids) ELSE <<>>) \o Tail(pairs) /\ UNCHANGED outcome
        ELSE outcome' = "different" /\ pairs' = <<>>
  /\ UNCHANGED <<growing, second>>
End == outcome = "run" /\ pairs = <<>> /\ outcome' = "equal" /\ UNCHANGED <<growing, second, pairs>>

Next == \/ Grow /\ UNCHANGED <<second, pairs, outcome>>
        \/ Grown /\ O!Grow /\ UNCHANGED <<growing, pairs, outcome>>
        \/ Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars

Compared == outcome \in {"equal", "different"}
CompareRight == Compared => ((outcome = "equal") = (Tree = O!Tree))
(* equal hierarchies have the same encoding, and different consistent ones have different encodings *)
EncodingTells == (Compared /\ Consistent(Tree) /\ Consistent(O!Tree)) => ((outcome = "equal") = (Encode(Tree) = Encode(O!Tree)))
=============================================================================
