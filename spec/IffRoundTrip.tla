---------------------------- MODULE IffRoundTrip ---------------------------
(***************************************************************************)
(* A hierarchy is written and read back, read and written again, for every *)
(* hierarchy within the bounds, conforming or not (C03, C04).  Also what   *)
(* reading is independent of: bytes behind the main chunk and the values   *)
(* of padding bytes (C01), and what it must notice: a missing byte (C02).  *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANT Reg

VARIABLES phase, bytes, back, again
rvars == <<phase, bytes, back, again>>
vars == <<growing, rvars>>

Init == GrowInit /\ phase = "none" /\ bytes = <<>> /\ back = <<>> /\ again = <<>>

Write_ == /\ phase = "none" /\ Grown
          /\ bytes' = Encode(Tree) /\ phase' = "written" /\ UNCHANGED <<growing, back, again>>
Read_ == /\ phase = "written"
         /\ back' = <<Decode(bytes, Reg)>> /\ phase' = "read" /\ UNCHANGED <<growing, bytes, again>>
Rewrite == /\ phase = "read" /\ back[1].ok
           /\ again' = Encode(back[1].node) /\ phase' = "again" /\ UNCHANGED <<growing, bytes, back>>

Next == (Grow /\ UNCHANGED rvars) \/ Write_ \/ Read_ \/ Rewrite
Spec == Init /\ [][Next]_vars

Right == Consistent(Tree) /\ WellKinded(Tree, ZeroId, Reg) /\ Canonical(Tree) /\ Separated(Tree)
(* C04 *)
ReadsBack == (phase = "read" /\ Right) => (back[1].ok /\ back[1].node = Tree /\ back[1].p = Len(bytes) /\ ~back[1].warn)
SameAgain == (phase = "again" /\ Right) => again = bytes
(* C03: the length of the encoding is what the sizes say *)
LengthRight == (phase = "written" /\ Consistent(Tree)) => Len(bytes) = Space(Tree.sz)
(* C14: handlers are called for the same chunks in writing and in reading *)
SameHandlers == (phase = "read" /\ Right) => [i \in 1..Len(back[1].ev) |-> <<back[1].ev[i][1], back[1].ev[i][2]>>] = Handled(Tree, ZeroId, Reg)
(* C01: what follows does not matter; C02: every byte does *)
TailIgnored == (phase = "read" /\ Right) => Decode(bytes \o <<1, 2>>, Reg) = back[1]
NoPrefixReads == (phase = "read" /\ Right) => \A n \in 0..(Len(bytes) - 1) : ~Decode(SubSeq(bytes, 1, n), Reg).ok
=============================================================================
