----------------------------- MODULE MCPrinter -----------------------------
EXTENDS IffPrinter, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>
ExtReg == [DefaultReg EXCEPT !.kinds = Append(@, "e5"), !.glob = << Append(@[1], [id |-> EXT1, slot |-> 6]) >>]

Run_(n) == [j \in 1..n |-> (j * 37) % 256]
AllData == {RawNode(BODY, Run_(n)) : n \in {0, 1, 9, 10, 11, 20, 21}} \cup {RawNode(TEXTID, <<104, 105>>), RawNode(TEXTID, <<>>)}
           \cup {Node(EXT1, "e5", 5, ZeroId, <<>>, <<>>, <<>>, <<<<1, 2, 160, 255>>, <<15>>>>)}
AllGroups == {<<"form", TEST>>, <<"prop", TEST>>, <<"cat", JJJJ>>, <<"list", TEST>>}

Spoil == {-1000, 95}

ASSUME PrintT("R|" \o ToJson(ExtReg))
Export == (status = "done" /\ Digest(Tree) % Every = 0) => PrintT("X|" \o ToString(ind0) \o "|" \o ToJson(Tree))
=============================================================================
