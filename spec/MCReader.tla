------------------------------ MODULE MCReader ------------------------------
(* Bounds for IffReader, and the export of every stream it was run on. *)
EXTENDS IffReader, Json

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>

ExtReg == [ forms |-> << [ty |-> TEST, nodes |-> << << [id |-> EXT1, slot |-> 6] >>, << [id |-> BODY, slot |-> 7] >> >>] >>,
            glob  |-> << << [id |-> CATID, slot |-> 1], [id |-> FORM, slot |-> 2] >>, << [id |-> LISTID, slot |-> 3], [id |-> PROPID, slot |-> 4] >> >>,
            def   |-> 5, kinds |-> <<"cat", "form", "list", "prop", "raw", "e5", "e1">> ]

(* structure: nesting, PROPs of LISTs, sizes that match or overrun *)
StructIds == {FORM, LISTID, PROPID, BODY}
StructSizes == {0, 1, 4, 12, 13}
(* edge sizes *)
EdgeIds == {FORM, CATID, BODY}
EdgeSizes == {0, 1, 2, 3, 4, 5, 11, 12, 13, 14, MaxInt, MaxInt - 1, -1, MinInt, -8}
(* application-defined chunks *)
ExtIds == {FORM, EXT1, BODY}
ExtSizes == {0, 1, 3, 4, 5, 6, 12, 17}

OneType == {TEST}
TwoTypes == {TEST, TYP2}
OneByte == {7}
TwoBytes == {0, 255}
Pads0 == {0}
Pads2 == {0, 9}
FB1 == [f \in {1, 2, 4} |-> {[j \in 1..f |-> 127 + j]}]
FB2 == [f \in {1, 2, 4} |-> {[j \in 1..f |-> 127 + j], [j \in 1..f |-> 0]}]

ASSUME PrintT("R|" \o ToJson(Reg))

Export == Done => PrintT("X|" \o ToJson(input) \o "|" \o status)
=============================================================================
