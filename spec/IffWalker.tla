----------------------------- MODULE IffWalker ------------------------------
(***************************************************************************)
(* Finding the handler of a chunk, node by node along the chain of a type  *)
(* and then along the global chain, entry by entry; and a traversal of a   *)
(* hierarchy that looks up the handler of every chunk this way, with the   *)
(* type of the group it is in at the moment as the scope.  The scope is    *)
(* kept on a stack of groups that were entered and not left yet.           *)
(*                                                                         *)
(* Theorems: each lookup yields Find (IffCore); the traversal calls the    *)
(* handlers Handled says, each chunk once; and a FORM type that has a      *)
(* chain does not influence chunks outside its groups (C14).               *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANT Regs \* the registries

VARIABLES reg, pc,
          nodes, entry,  \* what is left of the chain at hand, position in its first node
          level,         \* "form" or "global"
          slot,          \* handler found
          todo,          \* chunks still to visit, and marks for leaving a group
          scopes,        \* types of the groups entered
          called         \* <<slot, identifier>>
wvars == <<reg, pc, nodes, entry, level, slot, todo, scopes, called>>
vars == <<growing, wvars>>

NoReg == DefaultReg
Init == /\ GrowInit /\ reg = NoReg /\ pc = "grow" /\ nodes = <<>> /\ entry = 1 /\ level = "form" /\ slot = 0
        /\ todo = <<>> /\ scopes = <<>> /\ called = <<>>
Begin == /\ Grown /\ pc = "grow"
         /\ reg' \in {r \in Regs : WellKinded(Tree, ZeroId, r)}
         /\ pc' = "next" /\ todo' = << <<Tree>> >>
         /\ UNCHANGED <<growing, nodes, entry, level, slot, scopes, called>>

Scope == IF scopes = <<>> THEN ZeroId ELSE scopes[Len(scopes)]
Leave == <<>>
Cur == Head(todo)[1]
(* the chain registered for a type, if any: the first registration counts *)
RECURSIVE FirstForm(_, _)
FirstForm(fs, ty) == IF fs = <<>> THEN <<>> ELSE IF Head(fs).ty = ty THEN Head(fs).nodes ELSE FirstForm(Tail(fs), ty)

NextChunk ==
  /\ pc = "next" /\ todo # <<>>
  /\ IF Head(todo) = Leave THEN todo' = Tail(todo) /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1) /\ UNCHANGED <<pc, nodes, entry, level>>
     ELSE pc' = "find" /\ nodes' = FirstForm(reg.forms, Scope) /\ entry' = 1 /\ level' = "form" /\ UNCHANGED <<todo, scopes>>
  /\ UNCHANGED <<growing, reg, slot, called>>
Look ==
  /\ pc = "find"
  /\ IF nodes = <<>>
     THEN IF level = "form" THEN level' = "global" /\ nodes' = reg.glob /\ entry' = 1 /\ UNCHANGED <<slot, pc>>
          ELSE slot' = reg.def /\ pc' = "call" /\ UNCHANGED <<level, nodes, entry>>
     ELSE IF entry > Len(nodes[1]) THEN nodes' = Tail(nodes) /\ entry' = 1 /\ UNCHANGED <<slot, pc, level>>
     ELSE IF nodes[1][entry].id = Cur.id THEN slot' = nodes[1][entry].slot /\ pc' = "call" /\ UNCHANGED <<nodes, entry, level>>
     ELSE entry' = entry + 1 /\ UNCHANGED <<slot, pc, level, nodes>>
  /\ UNCHANGED <<growing, reg, todo, scopes, called>>
Call ==
  /\ pc = "call" /\ called' = Append(called, <<slot, Cur.id>>) /\ pc' = "next"
  /\ LET each(cs) == [i \in 1..Len(cs) |-> <<cs[i]>>]
     IN IF Cur.k \in GroupKinds
        THEN todo' = each(Cur.props) \o each(Cur.kids) \o <<Leave>> \o Tail(todo) /\ scopes' = Append(scopes, Cur.ty)
        ELSE todo' = Tail(todo) /\ UNCHANGED scopes
  /\ UNCHANGED <<growing, reg, nodes, entry, level, slot>>
End == pc = "next" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<growing, reg, nodes, entry, level, slot, todo, scopes, called>>
Next == (Grow /\ UNCHANGED wvars) \/ Begin \/ NextChunk \/ Look \/ Call \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Over == pc = "done"
FindRight == pc = "call" => slot = Find(reg, Scope, Cur.id)
KindRight == pc = "call" => reg.kinds[slot] = Cur.k
HandledRight == Over => called = Handled(Tree, ZeroId, reg) /\ Len(called) = count
(* without registrations for types that occur, only the global chain and the default count *)
RECURSIVE TypesIn(_)
TypesIn(t) == {t.ty} \cup UNION {TypesIn(t.props[i]) : i \in 1..Len(t.props)} \cup UNION {TypesIn(t.kids[i]) : i \in 1..Len(t.kids)}
Unrelated == Over => called = Handled(Tree, ZeroId, [reg EXCEPT !.forms = SelectSeq(@, LAMBDA f : f.ty \in TypesIn(Tree))])
Balanced == Over => scopes = <<>>
=============================================================================
