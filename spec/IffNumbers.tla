----------------------------- MODULE IffNumbers -----------------------------
(***************************************************************************)
(* Numbers on their way through a file.  A sequence of numeric fields is   *)
(* written: each value is taken apart from its most significant digit      *)
(* (base 256) on, a byte per step.  Then it is read: bytes are gathered,   *)
(* a byte per step, and for the signed types the sign is restored.         *)
(* Values: integers for the types of up to 16 bits and for signed 32-bit   *)
(* numbers; <<high, low>> with 16 bits each for the unsigned ones, as      *)
(* TLC's integers end at 2^31 - 1.                                         *)
(* The file may end early: there is room for cut bytes.  A number that     *)
(* does not fit is not written, and one that is not all there is not read. *)
(* Theorems: every value comes back, at its place, in the declared number  *)
(* of bytes, big-endian; exactly the numbers that are within the bytes the *)
(* file has are taken for written and for read (C16).                      *)
(***************************************************************************)
EXTENDS IffCore

CONSTANTS Types, MaxFields, ValuesOf(_),
          Cuts     \* whether the file may end early

VARIABLES fields,  \* what is written: <<type, value>>
          cut,     \* room in the file, in bytes
          mode, at, k,  \* field at hand, bytes of it done
          rest,    \* the value gathered so far
          pos,     \* bytes read
          file, back,
          wok, rok \* the fields taken for written and for read
vars == <<fields, cut, mode, at, k, rest, pos, file, back, wok, rok>>

Wide(ty) == ty \in {"ul", "id"}
Signed(ty) == ty \in {"w", "l"}
Limit(n) == CASE n = 0 -> 1 [] n = 1 -> 256 [] n = 2 -> 65536 [] n = 3 -> 16777216
UpTo(j) == FoldLeft(LAMBDA a, f : a + FieldSize(f[1]), 0, SubSeq(fields, 1, j))
Total == UpTo(Len(fields))

Init == fields = <<>> /\ cut = 0 /\ mode = "choose" /\ at = 1 /\ k = 0 /\ rest = 0 /\ pos = 0 /\ file = <<>> /\ back = <<>> /\ wok = <<>> /\ rok = <<>>
Choose == /\ mode = "choose" /\ Len(fields) < MaxFields
          /\ \E ty \in Types : \E v \in ValuesOf(ty) : fields' = Append(fields, <<ty, v>>)
          /\ UNCHANGED <<cut, mode, at, k, rest, pos, file, back, wok, rok>>
Begin == /\ mode = "choose" /\ fields # <<>> /\ mode' = "write"
         /\ cut' \in (IF Cuts THEN 0..Total ELSE {Total})
         /\ UNCHANGED <<fields, at, k, rest, pos, file, back, wok, rok>>

Ty == fields[at][1]
Size == FieldSize(Ty)
(* the digit after k digits: division rounds downwards, so that negative numbers come out as two's complement *)
Digit(v, n) == (v \div Limit(n)) % 256
Write == /\ mode = "write" /\ at <= Len(fields) /\ Len(file) < cut
         /\ LET v == fields[at][2]
                d == IF Wide(Ty) THEN Digit(v[1 + (k \div 2)], 1 - (k % 2)) ELSE Digit(v, Size - 1 - k)
            IN file' = Append(file, d)
         /\ IF k + 1 = Size THEN at' = at + 1 /\ k' = 0 /\ wok' = Append(wok, TRUE) ELSE k' = k + 1 /\ UNCHANGED <<at, wok>>
         /\ UNCHANGED <<fields, cut, mode, rest, pos, back, rok>>
NoRoom == /\ mode = "write" /\ at <= Len(fields) /\ Len(file) = cut
          /\ at' = at + 1 /\ k' = 0 /\ wok' = Append(wok, FALSE)
          /\ UNCHANGED <<fields, cut, mode, rest, pos, file, back, rok>>
Rewind == /\ mode = "write" /\ at > Len(fields) /\ mode' = "read" /\ at' = 1 /\ UNCHANGED <<fields, cut, k, rest, pos, file, back, wok, rok>>

(* gathering: the first digit of a signed number carries the sign *)
Gather == /\ mode = "read" /\ at <= Len(fields) /\ pos < Len(file)
          /\ LET b == file[pos + 1]
                 first == IF Signed(Ty) /\ b >= 128 THEN b - 256 ELSE b
                 r == IF Wide(Ty) THEN (CASE k = 0 -> <<b, 0>> [] k = 1 -> <<rest[1] * 256 + b, 0>> [] k = 2 -> <<rest[1], b>> [] k = 3 -> <<rest[1], rest[2] * 256 + b>>)
                      ELSE IF k = 0 THEN first ELSE rest * 256 + b
             IN IF k + 1 = Size THEN back' = Append(back, <<Ty, r>>) /\ rest' = 0 /\ at' = at + 1 /\ k' = 0 /\ rok' = Append(rok, TRUE)
                ELSE rest' = r /\ k' = k + 1 /\ UNCHANGED <<back, at, rok>>
          /\ pos' = pos + 1
          /\ UNCHANGED <<fields, cut, mode, file, wok>>
NoMore == /\ mode = "read" /\ at <= Len(fields) /\ pos = Len(file)
          /\ rest' = 0 /\ at' = at + 1 /\ k' = 0 /\ rok' = Append(rok, FALSE)
          /\ UNCHANGED <<fields, cut, mode, pos, file, back, wok>>
Finish_ == /\ mode = "read" /\ at > Len(fields) /\ mode' = "done" /\ UNCHANGED <<fields, cut, at, k, rest, pos, file, back, wok, rok>>
Next == Choose \/ Begin \/ Write \/ NoRoom \/ Rewind \/ Gather \/ NoMore \/ Finish_
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Over == mode = "done"
Fitting == Cardinality({j \in 1..Len(fields) : UpTo(j) <= cut})
SameValues == Over => back = SubSeq(fields, 1, Fitting)
RightLength == Over => Len(file) = cut
Whole == Over => /\ Len(wok) = Len(fields) /\ rok = wok
                 /\ \A j \in 1..Len(fields) : wok[j] = (UpTo(j) <= cut)
AreBytes == \A j \in 1..Len(file) : file[j] \in 0..255
(* the operators other modules use for sizes *)
SizesAgree == (Over /\ cut = Total /\ Len(fields) = 1 /\ fields[1][1] = "l") => Bytes32(fields[1][2]) = file /\ Int32At(file, 1) = fields[1][2]
=============================================================================
