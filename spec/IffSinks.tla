------------------------------ MODULE IffSinks -----------------------------
(***************************************************************************)
(* Writing to destinations of different kinds (C24, C05): a file by name,  *)
(* which may exist already, shorter or longer, or may be impossible to     *)
(* open; a handle the caller has opened; and standard output.  Bytes go    *)
(* through a buffer to a device with a limited amount of room.             *)
(*                                                                         *)
(* Theorems: success if and only if there was room for the whole encoding, *)
(* for every kind and every buffer; then the destination holds exactly the *)
(* encoding and nothing of what it held before; what cannot be opened is   *)
(* left as it was; what was opened by name is closed again, and the handle *)
(* of the caller remains open.                                             *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANTS Kinds, Befores, Rooms, Caps

VARIABLES kind, before, room, cap, \* the scenario
          file,   \* contents of the destination; <<-1>>: it does not exist
          buf, written, \* written: bytes handed over by the library
          phase,  \* "none", "open", "write", "flush", "close", "over"
          failed, opened

svars == <<kind, before, room, cap, file, buf, written, phase, failed, opened>>
vars == <<growing, svars>>
scenario == <<growing, kind, before, room, cap>>

Absent == <<-1>>
Junk(n) == IF n < 0 THEN Absent ELSE [j \in 1..n |-> 171]
Enc == Encode(Tree)

Init == /\ GrowInit /\ kind = "" /\ before = -1 /\ room = -1 /\ cap = 0 /\ file = Absent /\ buf = <<>> /\ written = 0
        /\ phase = "none" /\ failed = FALSE /\ opened = {}

Begin ==
  /\ Grown /\ phase = "none"
  /\ kind' \in Kinds /\ cap' \in Caps
  /\ before' \in (IF kind' = "name" THEN Befores ELSE {-1})
  /\ \E r \in Rooms : room' = IF r < 0 THEN -1 ELSE IF r > Len(Enc) THEN Len(Enc) ELSE r
  /\ file' = IF kind' \in {"name", "nodir"} THEN Junk(before') ELSE <<>>
  /\ opened' = IF kind' \in {"name", "nodir"} THEN {} ELSE {"user"}
  /\ phase' = "open"
  /\ UNCHANGED <<growing, buf, written, failed>>

Open_ ==
  /\ phase = "open"
  /\ IF kind = "nodir" THEN failed' = TRUE /\ phase' = "over" /\ UNCHANGED <<file, opened>>
     ELSE /\ phase' = "write" /\ UNCHANGED failed
          /\ IF kind = "name" THEN file' = <<>> /\ opened' = {"lib"} ELSE UNCHANGED <<file, opened>>
  /\ UNCHANGED <<scenario, buf, written>>

(* the device takes as much as it has room for *)
Push(b) ==
  LET n == IF room < 0 THEN Len(b) ELSE Min({Len(b), room - Len(file)})
  IN /\ file' = file \o SubSeq(b, 1, n) /\ buf' = <<>>
     /\ failed' = (failed \/ n < Len(b))

(* one byte from the library: into the buffer, or with it to the device if that is full *)
Put_ ==
  /\ phase = "write" /\ ~failed /\ written < Len(Enc)
  /\ written' = written + 1
  /\ LET b == Append(buf, Enc[written + 1])
     IN IF Len(b) > cap THEN Push(b) ELSE buf' = b /\ UNCHANGED <<file, failed>>
  /\ UNCHANGED <<scenario, phase, opened>>
Written == phase = "write" /\ (failed \/ written = Len(Enc)) /\ phase' = (IF failed THEN "close" ELSE "flush")
           /\ UNCHANGED <<scenario, file, buf, written, failed, opened>>
Flush_ == /\ phase = "flush" /\ phase' = "close"
          /\ Push(buf)
          /\ UNCHANGED <<scenario, written, opened>>
Close_ == /\ phase = "close" /\ phase' = "over" /\ opened' = opened \ {"lib"}
          /\ UNCHANGED <<scenario, file, buf, written, failed>>

Write_ == Open_ \/ Put_ \/ Written \/ Flush_ \/ Close_
Next == (Grow /\ UNCHANGED svars) \/ Begin \/ Write_
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Write_)

---------------------------------------------------------------------------
Over == phase = "over"
RoomDecides == Over => failed = (kind = "nodir" \/ (room >= 0 /\ room < Len(Enc)))          \* C05, C24
StoredExactly == (Over /\ ~failed) => file = Enc                                            \* C03, C24
PrefixOnly == (Over /\ failed /\ kind # "nodir") => IsPrefix(file, Enc)                      \* C05
Untouched == kind = "nodir" => file = Junk(before)
ClosedAgain == Over => opened = (IF kind \in {"name", "nodir"} THEN {} ELSE {"user"})        \* C17
Ends == (phase = "open") ~> Over
=============================================================================
