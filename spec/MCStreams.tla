----------------------------- MODULE MCStreams -----------------------------
(* Bounds for IffStreams, and the export of every history. *)
EXTENDS IffStreams, Json

CONSTANT Every

BODY == <<66, 79, 68, 89>>
EXT1 == <<69, 88, 84, 49>>
TEST == <<84, 69, 83, 84>>

ExtReg == [ forms |-> << [ty |-> TEST, nodes |-> << << [id |-> EXT1, slot |-> 6] >>, << [id |-> BODY, slot |-> 7] >> >>] >>,
            glob  |-> << << [id |-> CATID, slot |-> 1], [id |-> FORM, slot |-> 2] >>, << [id |-> LISTID, slot |-> 3], [id |-> PROPID, slot |-> 4] >> >>,
            def   |-> 5, kinds |-> <<"cat", "form", "list", "prop", "raw", "e5", "e1">> ]

NAME == <<78, 65, 77, 69>>
Raw(id, sz, body, pad) == id \o Bytes32(sz) \o body \o pad
Data(n) == [j \in 1..n |-> 96 + j]

(* odd sizes with either padding byte; fields left out, exact, and surplus bytes *)
DataPieces == {Raw(NAME, 0, <<>>, <<>>), Raw(NAME, 1, Data(1), <<0>>), Raw(NAME, 3, Data(3), <<70>>), Raw(NAME, 4, FORM, <<>>)}
ExtPieces == {Raw(EXT1, n, Data(n), IF n % 2 = 1 THEN <<7>> ELSE <<>>) : n \in {0, 3, 5, 8}}
             \cup {Raw(BODY, n, Data(n), IF n % 2 = 1 THEN <<0>> ELSE <<>>) : n \in {1, 4, 7}}
(* groups: empty, without type, with a sub chunk, overrun by it, with a LIST of PROPs *)
In1 == Raw(NAME, 3, Data(3), <<0>>)
In2 == Raw(EXT1, 5, Data(5), <<0>>)
GroupPieces == {
  Raw(FORM, 4, TEST, <<>>), Raw(FORM, 0, <<>>, <<>>), Raw(FORM, 3, Data(3), <<9>>),
  Raw(FORM, 16, TEST \o In1, <<>>), Raw(FORM, 6, TEST \o In1, <<>>), Raw(FORM, 17, TEST \o In1 \o In2, <<5>>),
  Raw(FORM, 30, TEST \o In2 \o In1, <<>>),
  Raw(LISTID, 28, TEST \o Raw(PROPID, 16, TEST \o In1, <<>>), <<>>), Raw(CATID, 5, JJJJ \o Raw(FORM, 4, TEST, <<>>), <<1>>) }
NeverPieces == {Raw(NAME, MaxInt, Data(2), <<>>), Raw(NAME, MaxInt - 1, <<>>, <<>>)}

AllPieces == DataPieces \cup ExtPieces \cup GroupPieces
One == <<AllPieces>>
MaxTwo == <<2>>
MaxThree == <<3>>
FewPieces == {Raw(NAME, 3, Data(3), <<70>>), Raw(EXT1, 8, Data(8), <<>>), Raw(FORM, 17, TEST \o In1 \o In2, <<5>>), Raw(FORM, 3, Data(3), <<9>>)}
Two == <<FewPieces \cup NeverPieces, FewPieces>>
TwoOne == <<2, 1>>
TwoTwo == <<2, 2>>

(* empty; behind what is there; in the middle; over everything *)
Nothing == {[b |-> <<>>, at |-> 0]}
Filled == Nothing \cup {[b |-> Data(5), at |-> 5], [b |-> Data(90), at |-> 7], [b |-> Data(12), at |-> 0]}

ASSUME PrintT("R|" \o ToJson(Reg))

(* a number that depends on the whole history, to choose some of them *)
Hash == FoldLeft(LAMBDA a, x : (a * 31 + x) % 65536, 7, Content(1) \o hist \o order \o <<dest.at>>)
Export == (Done /\ Hash % Every = 0) => PrintT("X|" \o ToJson([srcs |-> [s \in Sources |-> Content(s)], hist |-> hist, order |-> order, old |-> dest.b, at |-> dest.at]))
=============================================================================
