------------------------------- MODULE MCPP --------------------------------
EXTENDS IffPP, Json

BODY == <<66, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>
File(c) == [state |-> "file", content |-> c]
Leaves == {RawNode(BODY, <<>>), RawNode(BODY, <<1, 2, 3>>), RawNode(TEXTID, <<104, 105>>), RawNode(BODY, [j \in 1..11 |-> 20 * j]), RawNode(<<66, 79, 68, 127>>, <<7>>)}
Forms == {MkForm(ty, <<x>>) : ty \in {TEST, <<84, 46, 83, 84>>}, x \in Leaves} \cup {MkForm(TEST, <<>>)}
       \cup {MkForm(TEST, <<x, y>>) : x, y \in Leaves}
Props == {MkProp(TEST, <<x>>) : x \in Leaves} \cup {MkProp(TYP2, <<MkForm(TEST, <<>>)>>)}
Cats == {MkCat(ty, <<x>>) : ty \in {TEST, TYP2, JJJJ}, x \in Forms \cup Leaves} \cup {MkCat(TEST, <<p>>) : p \in Props}
Lists == {MkList(ty, <<p>>, <<x>>) : ty \in {TEST, JJJJ}, p \in Props, x \in Forms}
Nested == {MkForm(TEST, <<x>>) : x \in Cats \cup Props} \cup {MkCat(JJJJ, <<x>>) : x \in Lists} \cup {[x EXCEPT !.sz = @ + 2] : x \in Cats} \cup {[x EXCEPT !.sz = @ - 1] : x \in Lists}
Trees == Leaves \cup Forms \cup Props \cup Cats \cup Lists \cup Nested
Cut(n) == {File(SubSeq(b, 1, Len(b) - n)) : b \in {Encode(x) : x \in Cats}}
AllFiles == {File(Encode(x)) : x \in Trees} \cup {[state |-> "missing", content |-> <<>>], [state |-> "dir", content |-> <<>>], File(<<>>)} \cup Cut(1) \cup Cut(9)

FewFiles == {File(Encode(x)) : x \in Forms \cup Props} \cup {[state |-> "missing", content |-> <<>>]}

Export == Over => PrintT("X|" \o ToJson([input |-> input, source |-> source, nocheck |-> nocheck, exit |-> exit]))
=============================================================================
