----------------------------- MODULE MCMemory -----------------------------
(* Bounds for IffMemory, and the export of streams together with the allocation that fails. *)
EXTENDS IffMemory, Json

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>

MemReg == [ forms |-> << [ty |-> TEST, nodes |-> << << [id |-> EXT1, slot |-> 6] >> >>] >>,
            glob  |-> << << [id |-> CATID, slot |-> 1], [id |-> FORM, slot |-> 2], [id |-> LISTID, slot |-> 3], [id |-> PROPID, slot |-> 4] >> >>,
            def   |-> 5, kinds |-> <<"cat", "form", "list", "prop", "raw", "e5">> ]

MemIds == {FORM, LISTID, PROPID, BODY, EXT1}
MemSizes == {0, 1, 4, 12, 13}
OneType == {TEST}
OneByte == {7}
Pads0 == {0}
FB1 == [f \in {1, 2, 4} |-> {[j \in 1..f |-> 127 + j]}]

ASSUME PrintT("R|" \o ToJson(MemReg))

Export == status \in {"fail", "freed"} /\ (starved \/ status = "freed") => PrintT("X|" \o ToJson(input) \o "|" \o ToString(taken) \o "|" \o (IF starved THEN "starved" ELSE "ok"))
=============================================================================
