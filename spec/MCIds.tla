------------------------------- MODULE MCIds --------------------------------
EXTENDS IffIds, Json
CONSTANT Every
Letters == {65, 67, 70, 73, 74, 76, 77, 79, 80, 82, 83, 84}
Edges == {31, 32, 33, 46, 48, 49, 57, 58, 90, 97, 122, 126, 127, 128}
AllEdges == Edges \cup {0, 45, 47, 53, 64, 91, 96, 123, 255}
FewChars == Letters \cup Edges
AllChars == Letters \cup AllEdges
Export == (Over /\ (word[1] * 3 + word[2] * 5 + word[3] * 7 + word[4] * 11 + word[1] * word[4]) % Every = 0) => PrintT("X|" \o ToJson(word))
=============================================================================
