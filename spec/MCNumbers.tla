----------------------------- MODULE MCNumbers ------------------------------
EXTENDS IffNumbers, Json
CONSTANT Every
AllTypes == {"ub", "uw", "w", "ul", "l", "id"}
Narrow == {"ub", "uw", "w"}
Full(ty) == CASE ty = "ub" -> 0..255 [] ty = "uw" -> 0..65535 [] ty = "w" -> -32768..32767
Half == {0, 1, 127, 128, 255, 256, 258, 32767, 32768, 65280, 65535}
Longs == {0, 1, -1, 127, 128, 255, 256, 65535, 65536, 16777215, 16777216, 2147483647, -2147483647, MinInt, -128, -129, -256, -257, -65536, -65537, 16909060, -16909060}
Edge(ty) == CASE ty = "ub" -> {0, 1, 127, 128, 255} [] ty = "uw" -> Half [] ty = "w" -> {x - 32768 : x \in {0, 1, 255, 256, 32767, 32768, 32769, 65535}}
              [] ty \in {"ul", "id"} -> Half \X Half [] ty = "l" -> Longs
FewEdge(ty) == CASE ty = "ub" -> {0, 200} [] ty = "uw" -> {258, 65280} [] ty = "w" -> {-2, 258} [] ty = "ul" -> {<<33023, 254>>} [] ty = "id" -> {<<16961, 17476>>} [] ty = "l" -> {MinInt, 16909060, -2}
Export == (Over /\ (Len(file) + FoldLeft(LAMBDA a, b : (a * 7 + b) % 10007, 1, file)) % Every = 0)
            => PrintT("X|" \o ToJson([j \in 1..Len(fields) |-> [ty |-> fields[j][1], v |-> fields[j][2]]]) \o "|" \o ToString(cut) \o "|" \o ToString(Total))
=============================================================================
