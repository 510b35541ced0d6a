------------------------------- MODULE IffPP -------------------------------
(***************************************************************************)
(* A run of iffpp, step by step: the file is read, checked unless that is  *)
(* disabled, and printed chunk by chunk; then it is released.              *)
(* Theorems: the end of a run is PPOutcome (IffTools), and nothing is      *)
(* printed of a file that is refused (C21).                                *)
(***************************************************************************)
EXTENDS IffTools

CONSTANTS Files, Sources  \* "name", "stdin"

VARIABLES input, source, nocheck, pc, main, todo, out, exit, objs
vars == <<input, source, nocheck, pc, main, todo, out, exit, objs>>

Init == /\ input = [state |-> "missing", content |-> <<>>] /\ source = "name" /\ nocheck = FALSE
        /\ pc = "args" /\ main = <<>> /\ todo = <<>> /\ out = <<>> /\ exit = -1 /\ objs = 0
Start == /\ pc = "args" /\ input' \in Files /\ source' \in Sources /\ nocheck' \in BOOLEAN
         /\ source' = "stdin" => input'.state = "file"
         /\ pc' = "read" /\ UNCHANGED <<main, todo, out, exit, objs>>
Read == /\ pc = "read"
        /\ IF Readable(input) THEN main' = <<TLCEval(Main(input))>> /\ objs' = Chunks(main'[1]) /\ pc' = (IF nocheck THEN "show" ELSE "check") /\ UNCHANGED exit
           ELSE pc' = "exit" /\ exit' = 1 /\ UNCHANGED <<main, objs>>
        /\ UNCHANGED <<input, source, nocheck, todo, out>>
Check == /\ pc = "check"
         /\ IF Conforms(main[1]) THEN pc' = "show" /\ UNCHANGED exit ELSE pc' = "free" /\ exit' = 1
         /\ UNCHANGED <<input, source, nocheck, main, todo, out, objs>>
(* what is to be printed: chunks with their indentation, and pieces of text between them *)
Chunk(c, ind) == [c |-> <<c>>, ind |-> ind, text |-> <<>>]
Piece(t) == [c |-> <<>>, ind |-> 0, text |-> t]
Show == /\ pc = "show" /\ todo' = <<Chunk(main[1], 0)>> /\ pc' = "print"
        /\ UNCHANGED <<input, source, nocheck, main, out, exit, objs>>
Chunks_(cs, ind) == [j \in 1..Len(cs) |-> Chunk(cs[j], ind)]
Inside(c, ind) ==
  CASE c.k \in {"form", "prop"} -> << Piece(Indent(ind) \o SFormType \o c.ty \o SQuoteEnd \o Indent(ind) \o SListOpen) >> \o Chunks_(c.kids, ind + 1) \o << Piece(Indent(ind) \o SListClose) >>
    [] c.k = "cat" -> << Piece(Indent(ind) \o SContType \o c.ty \o SQuoteEnd \o Indent(ind) \o SListOpen) >> \o Chunks_(c.kids, ind + 1) \o << Piece(Indent(ind) \o SListClose) >>
    [] c.k = "list" -> << Piece(Indent(ind) \o SContType \o c.ty \o SQuoteEnd \o Indent(ind) \o SProps) >> \o Chunks_(c.props, ind + 1)
                       \o << Piece(Indent(ind) \o SListClose \o Indent(ind) \o SListOpen) >> \o Chunks_(c.kids, ind + 1) \o << Piece(Indent(ind) \o SListClose) >>
    [] OTHER -> << Piece(RenderBody(c, ind)) >>
PrintNext ==
         /\ pc = "print" /\ todo # <<>>
         /\ LET t == Head(todo)
            IN IF t.c = <<>> THEN out' = out \o t.text /\ todo' = Tail(todo)
               ELSE LET c == t.c[1]
                    IN /\ out' = out \o Indent(t.ind) \o <<39>> \o c.id \o SOpen \o Indent(t.ind + 1) \o SChunkSize \o Decimal(c.sz) \o SSemi
                       /\ todo' = Inside(c, t.ind) \o << Piece(Indent(t.ind) \o SClose) >> \o Tail(todo)
         /\ UNCHANGED <<input, source, nocheck, pc, main, exit, objs>>
Printed == /\ pc = "print" /\ todo = <<>> /\ pc' = "free" /\ exit' = 0
           /\ UNCHANGED <<input, source, nocheck, main, todo, out, objs>>
Free == /\ pc = "free" /\ objs' = objs - Chunks(main[1]) /\ main' = <<>> /\ pc' = "exit"
        /\ UNCHANGED <<input, source, nocheck, todo, out, exit>>

Next == Start \/ Read \/ Check \/ Show \/ PrintNext \/ Printed \/ Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Over == pc = "exit"
OutcomeRight == Over => PPFaults([input |-> input, nocheck |-> nocheck, exit |-> exit, out |-> out]) = {}
NothingOfRefused == (Over /\ exit # 0) => out = <<>>
AllFreed == Over => objs = 0 /\ main = <<>>
Ends == <>Over
=============================================================================
