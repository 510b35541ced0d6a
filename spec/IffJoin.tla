------------------------------ MODULE IffJoin ------------------------------
(***************************************************************************)
(* A run of iffjoin, step by step: the command line is put together, the   *)
(* inputs are read, checked and added to a concatenation one after the     *)
(* other, and the concatenation is stored at the destination piece by      *)
(* piece.  The destination may be a file that exists already, one that     *)
(* cannot be created, one that takes a limited number of bytes only, the   *)
(* standard output, or one of the inputs.                                  *)
(*                                                                         *)
(* State: the files, what the process holds (objects), and what it has     *)
(* shown so far.  The theorems compare the end of a run with JoinOutcome   *)
(* (IffTools), by which real runs are judged, and say that nothing is      *)
(* touched before every input has been accepted (C20).                     *)
(***************************************************************************)
EXTENDS IffTools

CONSTANTS Files,     \* what an input may be: [state, content]
          MaxInputs,
          Dests,     \* "stdout", "file", "nodir", "full", "capped"
          Caps,      \* for "capped"
          Befores,   \* output files that exist before: numbers of bytes, or -1 for none
          Aliases    \* whether the output file may be one of the inputs

VARIABLES inputs, dest, cap, before, alias,
          pc, pos,      \* next input
          chunk,        \* what was read last, not part of the concatenation yet (a sequence of length 0 or 1)
          cat, count,   \* the concatenation
          objs,         \* number of chunks the process has allocated
          rest,         \* what is still to be stored
          out, post,    \* standard output, output file
          exit

vars == <<inputs, dest, cap, before, alias, pc, pos, chunk, cat, count, objs, rest, out, post, exit>>

Empty == MkCat(JJJJ, <<>>)
OldBytes(n) == [j \in 1..n |-> 171]
FileBefore == IF alias # 0 THEN [there |-> TRUE, bytes |-> inputs[alias].content]
              ELSE IF before < 0 THEN [there |-> FALSE, bytes |-> <<>>] ELSE [there |-> TRUE, bytes |-> OldBytes(before)]

Init == /\ inputs = <<>> /\ dest = "stdout" /\ cap = -1 /\ before = -1 /\ alias = 0
        /\ pc = "args" /\ pos = 1 /\ chunk = <<>> /\ cat = Empty /\ count = 0 /\ objs = 0 /\ rest = <<>>
        /\ out = <<>> /\ post = [there |-> FALSE, bytes |-> <<>>] /\ exit = -1

NameInput == /\ pc = "args" /\ Len(inputs) < MaxInputs
             /\ \E f \in Files : inputs' = Append(inputs, f)
             /\ UNCHANGED <<dest, cap, before, alias, pc, pos, chunk, cat, count, objs, rest, out, post, exit>>
Start == /\ pc = "args" /\ UNCHANGED inputs
         /\ dest' \in Dests /\ before' \in Befores
         /\ cap' \in (IF dest' = "capped" THEN Caps ELSE {-1})
         /\ alias' \in (IF Aliases /\ dest' = "file" THEN {0} \cup {j \in 1..Len(inputs) : inputs[j].state = "file"} ELSE {0})
         /\ post' = FileBefore'
         /\ IF inputs = <<>> THEN pc' = "exit" /\ exit' = 1 /\ UNCHANGED objs
            ELSE pc' = "read" /\ objs' = 1 /\ UNCHANGED exit \* the empty concatenation
         /\ UNCHANGED <<pos, chunk, cat, count, rest, out>>

(* an input is read from the file as it is now *)
Read == /\ pc = "read" /\ pos <= Len(inputs)
        /\ IF Readable(inputs[pos])
           THEN LET m == TLCEval(Main(inputs[pos])) IN chunk' = <<m>> /\ objs' = objs + Chunks(m) /\ pc' = "check" /\ UNCHANGED exit
           ELSE pc' = "giveup" /\ UNCHANGED <<chunk, objs, exit>>
        /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, cat, count, rest, out, post>>
Check == /\ pc = "check"
         /\ pc' = (IF Conforms(chunk[1]) THEN "add" ELSE "giveup")
         /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, chunk, cat, count, objs, rest, out, post, exit>>
AddIt == /\ pc = "add"
         /\ cat' = MkCat(TrackType(cat.ty, count, chunk[1].id, chunk[1].ty), Append(cat.kids, chunk[1]))
         /\ count' = count + 1 /\ chunk' = <<>> /\ pos' = pos + 1
         /\ pc' = "read"
         /\ UNCHANGED <<inputs, dest, cap, before, alias, objs, rest, out, post, exit>>
GiveUp == /\ pc = "giveup"
          /\ objs' = objs - Chunks(cat) - (IF chunk = <<>> THEN 0 ELSE Chunks(chunk[1]))
          /\ chunk' = <<>> /\ cat' = Empty /\ pc' = "exit" /\ exit' = 1
          /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, count, rest, out, post>>

(* the destination is opened only now; an output file loses its contents *)
Open == /\ pc = "read" /\ pos > Len(inputs)
        /\ IF dest = "nodir" THEN pc' = "free" /\ exit' = 1 /\ UNCHANGED <<rest, post>>
           ELSE pc' = "store" /\ rest' = Encode(cat) /\ UNCHANGED exit
                /\ post' = (IF dest \in {"file", "capped"} THEN [there |-> TRUE, bytes |-> <<>>] ELSE post)
        /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, chunk, cat, count, objs, out>>

Taken == CASE dest = "full" -> 0 [] dest = "capped" -> IF cap >= Len(post.bytes) THEN cap - Len(post.bytes) ELSE 0 [] OTHER -> Len(rest)
(* a few bytes more, as many as there is room for *)
Store == /\ pc = "store" /\ rest # <<>>
         /\ LET n == Min({12, Len(rest)})
                m == Min({n, Taken})
                b == SubSeq(rest, 1, m)
            IN /\ out' = (IF dest = "stdout" THEN out \o b ELSE out)
               /\ post' = (IF dest \in {"file", "capped"} THEN [post EXCEPT !.bytes = @ \o b] ELSE post)
               /\ rest' = SubSeq(rest, m + 1, Len(rest))
               /\ IF m < n THEN pc' = "free" /\ exit' = 1 ELSE UNCHANGED <<pc, exit>>
         /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, chunk, cat, count, objs>>
Close == /\ pc = "store" /\ rest = <<>> /\ pc' = "free" /\ exit' = 0
         /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, chunk, cat, count, objs, rest, out, post>>
Free == /\ pc = "free" /\ objs' = objs - Chunks(cat) /\ cat' = Empty /\ pc' = "exit"
        /\ UNCHANGED <<inputs, dest, cap, before, alias, pos, chunk, count, rest, out, post, exit>>

Next == NameInput \/ Start \/ Read \/ Check \/ AddIt \/ GiveUp \/ Open \/ Store \/ Close \/ Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Read \/ Check \/ AddIt \/ GiveUp \/ Open \/ Store \/ Close \/ Free)

---------------------------------------------------------------------------
Over == pc = "exit"
OutcomeRight == Over => JoinFaults([inputs |-> inputs, dest |-> dest, cap |-> cap, pre |-> FileBefore, exit |-> exit, out |-> out, post |-> post]) = {}
(* nothing is shown, and no file changes, before every input was accepted *)
Untouched == (pc \in {"read", "check", "add", "giveup"} \/ (Over /\ ~Joinable(inputs))) => out = <<>> /\ post = FileBefore
(* success means that everything was stored *)
StoredAll == (Over /\ exit = 0) => rest = <<>> /\ (out \o post.bytes # <<>>)
AllFreed == Over => objs = 0
Accounted == pc \notin {"args", "exit"} => objs = Chunks(cat) + (IF chunk = <<>> THEN 0 ELSE Chunks(chunk[1]))
(* the members so far are the inputs so far, and their common type is known *)
Gathered == pc \in {"read", "check", "add"} => cat = (IF pos = 1 THEN Empty ELSE Joined(SubSeq(inputs, 1, pos - 1)))
Ends == <>Over
=============================================================================
