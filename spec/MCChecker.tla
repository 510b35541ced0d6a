----------------------------- MODULE MCChecker -----------------------------
EXTENDS IffChecker, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
BADI == <<66, 79, 68, 127>>
LOWI == <<98, 111, 100, 121>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>
DOTT == <<84, 46, 83, 84>>
LIS1 == <<76, 73, 83, 49>>
SPCE == <<32, 69, 83, 84>>

(* structure: which chunk may be where *)
StructData == {RawNode(BODY, <<1>>)}
StructGroups == {<<k, ty>> : k \in {"form", "prop", "cat", "list"}, ty \in {TEST, TYP2}} \cup {<<"cat", JJJJ>>, <<"list", JJJJ>>}
FewGroups == {<<"form", TEST>>, <<"prop", TEST>>, <<"cat", TEST>>, <<"list", JJJJ>>}
(* names: legal and illegal identifiers and types everywhere *)
NameData == {RawNode(BODY, <<>>), RawNode(BADI, <<>>), RawNode(LOWI, <<>>)}
NameGroups == {<<k, ty>> : k \in {"form", "prop", "cat", "list"}, ty \in {TEST, DOTT, LIS1, SPCE, LISTID}}

Export == (Decided /\ (Digest(Tree) % Every = 0 \/ (verdict = "yes" /\ Digest(Tree) % (1 + Every \div 16) = 0))) => PrintT("X|" \o verdict \o "|" \o ToJson(Tree))
=============================================================================
