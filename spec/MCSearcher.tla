----------------------------- MODULE MCSearcher ----------------------------
EXTENDS IffSearcher, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
NAME == <<78, 65, 77, 69>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>

SearchData == {RawNode(BODY, <<>>)}
SearchGroups == {<<"form", TEST>>, <<"form", TYP2>>, <<"cat", JJJJ>>, <<"list", JJJJ>>, <<"prop", TEST>>}
SearchSets == {{TEST}, {TEST, TYP2}}
LookData == {RawNode(BODY, <<>>), RawNode(NAME, <<>>)}
LookGroups == {<<"form", TEST>>, <<"cat", JJJJ>>, <<"list", JJJJ>>, <<"prop", TEST>>, <<"prop", TYP2>>}

NestGroups == {<<"form", TEST>>, <<"list", JJJJ>>, <<"prop", TEST>>}
OnlyBody == {BODY}

HasForm == \E n \in Ids(t) : ChunkAt(n).k = "form"
Export == (mode = "done" /\ (Digest(Tree) + form) % Every = 0 /\ HasForm) => PrintT("X|" \o ToString(form) \o "|" \o ToJson(Tree))
=============================================================================
