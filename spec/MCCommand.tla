----------------------------- MODULE MCCommand -----------------------------
EXTENDS IffCommand, Json

A == <<97>>
B == <<98>>
Nn == <<110>>
DashO == <<45, 111>>
Words == {A, B, Nn, DashO, DashO \o B, DashO \o Nn, <<45, 104>>, <<45, 118>>, <<45, 99>>, <<45, 99, 104>>, <<45, 99, 111, 110>>, <<45, 122>>, <<45, 45>>,
          <<45, 45>> \o OutputFile, <<45, 45>> \o OutputFile \o <<61>> \o Nn, <<45, 45>> \o SubSeq(OutputFile, 1, 3) \o <<61>> \o A,
          <<45, 45>> \o DisableCheck, <<45, 45>> \o SubSeq(DisableCheck, 1, 1), <<45, 45>> \o Help, <<45, 45>> \o SubSeq(Version, 1, 3), <<45, 45>> \o Help \o <<61, 49>>, <<45, 45, 120>>}
Few == {A, B, Nn, DashO, DashO \o B, <<45, 99>>, <<45, 104>>, <<45, 45>>, <<45, 45>> \o SubSeq(OutputFile, 1, 3) \o <<61>> \o A, <<45, 45>> \o DisableCheck, <<45, 45, 120>>}

Export == words # <<>> => PrintT("X|" \o ToJson([tool |-> tool, words |-> words, end |-> Result.end, names |-> Len(Result.names), output |-> Len(Result.output), nocheck |-> Result.nocheck]))
=============================================================================
