----------------------------- MODULE MCComparer ----------------------------
EXTENDS IffComparer, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
NAME == <<78, 65, 77, 69>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>

MixData == {RawNode(BODY, <<1>>), RawNode(BODY, <<2>>), RawNode(BODY, <<>>), RawNode(NAME, <<1>>)}
MixGroups == {<<"form", TEST>>, <<"form", TYP2>>, <<"list", TEST>>, <<"prop", TEST>>}
MixGroups2 == {<<"form", TEST>>, <<"list", TEST>>, <<"prop", TEST>>, <<"cat", TEST>>}
FewData == {RawNode(BODY, <<1>>)}
FewGroups == {<<"list", TEST>>, <<"prop", TEST>>, <<"form", TEST>>}

(* pairs that are alike are of more interest than others *)
Alike == Tree.id = O!Tree.id /\ Tree.ty = O!Tree.ty
Export == (Compared /\ Alike /\ (outcome = "equal" \/ (Digest(Tree) + 3 * Digest(O!Tree)) % Every = 0)) => PrintT("X|" \o outcome \o "|" \o ToJson(Tree) \o "|" \o ToJson(O!Tree))
=============================================================================
