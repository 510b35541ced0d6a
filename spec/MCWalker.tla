----------------------------- MODULE MCWalker -------------------------------
EXTENDS IffWalker, Json
CONSTANT Every

BODY == <<66, 79, 68, 89>>
HIGH == <<200, 79, 68, 89>>
TEST == <<84, 69, 83, 84>>
TYP2 == <<84, 89, 80, 50>>

(* slots 1-5 as by default; 6: another FORM handler, 7: another PROP handler, 8: e1, 9: raw, 10: e5 *)
Kinds == <<"cat", "form", "list", "prop", "raw", "form", "prop", "e1", "raw", "e5">>
E(id, s) == [id |-> id, slot |-> s]
Groups4 == <<E(CATID, 1), E(FORM, 2), E(LISTID, 3), E(PROPID, 4)>>
Globs == { <<Groups4>>, << <<E(BODY, 9)>> \o Groups4>>, << <<E(BODY, 8)>>, Groups4>>, << <<E(CATID, 1), E(FORM, 2)>>, <<E(FORM, 6), E(LISTID, 3), E(PROPID, 4), E(BODY, 10)>> >> }
Chains == { <<>>, << <<E(BODY, 8)>> >>, << <<>>, <<E(BODY, 9)>> >>, << <<E(FORM, 6)>>, <<E(BODY, 8), E(PROPID, 7)>> >>, << <<E(BODY, 9)>>, <<E(BODY, 8)>> >> }
Reg(glob, forms) == [forms |-> forms, glob |-> glob, def |-> 5, kinds |-> Kinds]
F(ty, c) == [ty |-> ty, nodes |-> c]
OneForm == {Reg(g, <<F(TEST, c)>>) : g \in Globs, c \in Chains}
TwoForms == {Reg(g, <<F(TYP2, c), F(TEST, d)>>) : g \in {<<Groups4>>, << <<E(BODY, 8)>>, Groups4>>}, c \in Chains \ {<<>>}, d \in Chains}
SomeRegs == OneForm
MoreRegs == OneForm \cup TwoForms

Ext1(sz) == Node(BODY, "e1", sz, ZeroId, <<>>, <<>>, <<>>, <<<<1>>, <<2>>, <<3, 4>>>>)
Ext5 == Node(BODY, "e5", 5, ZeroId, <<>>, <<>>, <<>>, <<<<65, 66, 67, 68>>, <<9>>>>)
SomeData == {RawNode(BODY, <<1>>), Ext1(4), Ext5}
SomeGroups == {<<"form", TEST>>, <<"form", TYP2>>, <<"list", TEST>>, <<"prop", TEST>>, <<"cat", TYP2>>}
FewGroups == {<<"form", TEST>>, <<"form", TYP2>>, <<"list", TEST>>, <<"prop", TEST>>}

RECURSIVE HasData(_)
HasData(t) == t.k \notin GroupKinds \/ (\E i \in 1..Len(t.props) : HasData(t.props[i])) \/ (\E i \in 1..Len(t.kids) : HasData(t.kids[i]))
Export == (Over /\ (Digest(Tree) + FoldLeft(LAMBDA a, x : (a * 11 + x[1]) % 10007, 1, called) + 5 * Len(reg.glob) + 3 * Len(reg.forms[1].nodes)) % Every = 0 /\ HasData(Tree))
          => PrintT("X|" \o ToJson(reg) \o "|" \o ToJson(Tree))
=============================================================================
