---------------------------- MODULE MCRoundTrip ----------------------------
EXTENDS IffRoundTrip, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>
ExtReg == [ forms |-> << [ty |-> TEST, nodes |-> << << [id |-> EXT1, slot |-> 6] >> >>] >>,
            glob  |-> DefaultReg.glob, def |-> 5, kinds |-> <<"cat", "form", "list", "prop", "raw", "e5">> ]
ExtNode(sz, v) == Node(EXT1, "e5", sz, ZeroId, <<>>, <<>>, <<>>, v)
AllData == {RawNode(BODY, <<>>), RawNode(BODY, <<70, 79, 82>>), ExtNode(5, <<<<1, 2, 3, 4>>, <<255>>>>), ExtNode(4, <<<<1, 2, 3, 4>>, <<0>>>>), ExtNode(7, <<<<1, 2, 3, 4>>, <<9>>>>), RawNode(EXT1, <<1>>)}
AllGroups == {<<"form", TEST>>, <<"form", TYP2>>, <<"prop", TEST>>, <<"cat", JJJJ>>, <<"list", TEST>>}

ASSUME PrintT("R|" \o ToJson(Reg))
Export == (phase = "again" /\ Right /\ Digest(Tree) % Every = 0) => PrintT("X|" \o ToJson(Tree))
=============================================================================
