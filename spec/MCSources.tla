----------------------------- MODULE MCSources -----------------------------
EXTENDS IffSources, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>

SomeData == {RawNode(BODY, <<>>), RawNode(BODY, <<70, 79, 82>>)}
SomeGroups == {<<"form", TEST>>, <<"list", JJJJ>>}
AllKinds == {"name", "handle", "stdin", "missing", "dir"}
SomeTails == {-9, -1, 0, 1, 12}
SomeCaps == {1, 5, 64}
SomePatterns == {<<1>>, <<3>>, <<64>>, <<1, 7>>}
SomeErrs == {-1, 0, 8, 13}
MoreTails == (-13)..9
MoreErrs == (-1)..30
MorePatterns == SomePatterns \cup {<<2, 1, 5>>, <<4>>, <<12, 1>>}

Hash == FoldLeft(LAMBDA a, x : (a * 31 + x) % 65536, 7, content \o pattern \o <<cap, errat + 1, Len(kind)>>)
Export == (Over /\ Hash % Every = 0) =>
  PrintT("X|" \o ToJson([content |-> content, kind |-> kind, cap |-> cap, pattern |-> pattern, errat |-> errat, ok |-> result.ok]))
=============================================================================
