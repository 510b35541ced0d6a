------------------------------ MODULE MCSession ----------------------------
EXTENDS IffSession, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>

Odd == {<<7>>, <<>>}
BuildGroups == {<<"createEmptyForm", "form", TEST>>, <<"createEmptyList", "list", JJJJ>>, <<"createEmptyProp", "prop", TEST>>}
BuildAdds == {"addToForm", "addToList", "addPropToList", "addToProp"}
SizeGroups == {<<"createEmptyForm", "form", TEST>>, <<"createEmptyListWithContentsType", "list", TEST>>, <<"createEmptyProp", "prop", TEST>>}
TrackGroups == {<<"createEmptyCAT", "cat", JJJJ>>, <<"createEmptyForm", "form", TEST>>, <<"createEmptyForm", "form", TYP2>>, <<"createEmptyList", "list", JJJJ>>}
CatGroups == {<<"createEmptyCAT", "cat", JJJJ>>, <<"createEmptyForm", "form", TEST>>, <<"createEmptyForm", "form", TYP2>>}
ListGroups == {<<"createEmptyList", "list", JJJJ>>, <<"createEmptyForm", "form", TEST>>, <<"createEmptyProp", "prop", TYP2>>}
ListAdds == {"addToListAndUpdateContentsType", "addToList", "addPropToList"}
TrackAdds == {"addToCATAndUpdateContentsType", "addToListAndUpdateContentsType", "addToCAT"}
Poked == {5, 70000}
MoveGroups == {<<"createEmptyForm", "form", TEST>>, <<"createEmptyList", "list", JJJJ>>}
MoveAdds == {"addToForm", "addToListAndUpdateContentsType"}
Seven == {<<7>>}
NewPay == {<<1, 2, 3>>}

View == <<state, nops>>

(* how every so-maniest history went, when it could not go on *)
RECURSIVE HashOf(_, _)
HashOf(h, a) == IF h = <<>> THEN a ELSE HashOf(Tail(h), (a * 7 + Len(h[1]) + (IF h[1][1] \in {"update", "free"} THEN 3 * h[1][2] ELSE IF h[1][1] \in {"poke", "setraw"} THEN 5 + h[1][2] ELSE 12 * h[1][3])) % 10007)
Export == (nops = MaxOps /\ HashOf(hist, 1) % Every = 0) => PrintT("X|" \o ToJson(hist))
=============================================================================
