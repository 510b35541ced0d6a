------------------------------- MODULE MCJoin ------------------------------
EXTENDS IffJoin, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>
File(c) == [state |-> "file", content |-> c]
Odd == RawNode(BODY, <<1, 2, 3>>)
FormT == MkForm(TEST, <<Odd>>)
Form2 == MkForm(TYP2, <<>>)
CatT == MkCat(TEST, <<FormT, MkForm(TEST, <<>>)>>)
CatJ == MkCat(JJJJ, <<Form2>>)
ListT == MkList(TEST, <<MkProp(TEST, <<RawNode(BODY, <<>>)>>)>>, <<MkForm(TEST, <<>>)>>)
Missing == [state |-> "missing", content |-> <<>>]
Dir == [state |-> "dir", content |-> <<>>]
Cut == File(SubSeq(Encode(FormT), 1, 20))
WrongSize == File(Encode([MkCat(TEST, <<MkForm(TEST, <<>>)>>) EXCEPT !.sz = 18]) )
WrongType == File(Encode(MkCat(TEST, <<Form2>>)))
JustProp == File(Encode(MkProp(TEST, <<>>)))
Trailing == File(Encode(Form2) \o <<0, 70>>)

Good == {File(Encode(x)) : x \in {FormT, Form2, CatT, CatJ, ListT}}
Bad == {Missing, Dir, Cut, WrongSize, WrongType, JustProp}
SomeFiles == Good \cup Bad \cup {Trailing}
FewFiles == {File(Encode(FormT)), File(Encode(Form2)), File(Encode(CatJ)), Missing, WrongType}
AllDests == {"stdout", "file", "nodir", "full", "capped"}
SomeCaps == {0, 11, 12, 20, 31, 32, 52, 200}
FewCaps == {12, 52}

Hash(s) == FoldLeft(LAMBDA a, f : (a * 7 + Len(f.content) + (IF f.state = "dir" THEN 1 ELSE 2)) % 10007, 1, s)
Export == (Over /\ (Hash(inputs) + 3 * cap + before + 5 * alias) % Every = 0)
          => PrintT("X|" \o ToJson([inputs |-> inputs, dest |-> dest, cap |-> cap, before |-> before, alias |-> alias, exit |-> exit]))
=============================================================================
