------------------------------ MODULE MCSinks ------------------------------
EXTENDS IffSinks, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>

SomeData == {RawNode(BODY, <<>>), RawNode(BODY, <<1, 2, 3>>)}
SomeGroups == {<<"form", TEST>>, <<"list", JJJJ>>}
AllKinds == {"name", "handle", "stdout", "nodir"}
SomeBefores == {-1, 0, 3, 90}
SomeRooms == {-1, 0, 1, 8, 11, 12, 19, 25, 1000}
MoreRooms == (-1)..50 \cup {1000}
SomeCaps == {0, 5, 64}
MoreCaps == {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 64}

Hash == (Digest(Tree) * 7 + before + 31 * room + 101 * cap + Len(kind)) % 65536
Export == (Over /\ Hash % Every = 0) =>
  PrintT("X|" \o ToJson([kind |-> kind, before |-> before, room |-> room, cap |-> cap, ok |-> ~failed, tree |-> Tree]))
=============================================================================
