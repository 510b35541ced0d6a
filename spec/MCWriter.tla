------------------------------ MODULE MCWriter -----------------------------
EXTENDS IffWriter, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>
ExtReg == [DefaultReg EXCEPT !.kinds = Append(@, "e5"), !.glob = << Append(@[1], [id |-> EXT1, slot |-> 6]) >>]
ExtNode(sz, a, b) == Node(EXT1, "e5", sz, ZeroId, <<>>, <<>>, <<>>, <<a, b>>)

PlainData == {RawNode(BODY, <<>>), RawNode(BODY, <<255, 1, 2>>)}
PlainGroups == {<<"form", TEST>>, <<"prop", TYP2>>, <<"cat", JJJJ>>, <<"list", TEST>>}
ExtData == {ExtNode(sz, <<1, 2, 3, 4>>, <<200>>) : sz \in {0, 1, 3, 4, 5, 6, 9}} \cup {RawNode(BODY, <<7>>)}
ExtGroups == {<<"form", TEST>>}

ASSUME PrintT("R|" \o ToJson(IF Data = ExtData THEN ExtReg ELSE DefaultReg))
Export == (status = "fail" /\ attempt = 1 /\ (Digest(Tree) + 7 * Len(dest) + cap) % Every = 0) => PrintT("X|" \o ToString(Len(dest)) \o "|" \o ToString(cap) \o "|" \o ToJson(Tree))
=============================================================================
