------------------------------ MODULE IffCore ------------------------------
(***************************************************************************)
(* Values and functions of the libiff specification: identifiers, 32-bit   *)
(* sizes, chunk trees, registries, the meaning of a byte stream (Decode),  *)
(* the encoding of a tree (Encode), the IFF-85 rules (Conforms), equality, *)
(* search, property lookup, the textual representation (Render) and the    *)
(* bookkeeping of the building functions.                                  *)
(*                                                                         *)
(* Bytes are integers 0..255, identifiers are 4-tuples of bytes, sizes are *)
(* signed 32-bit integers.  TLC's integers are 32 bits wide as well and it *)
(* reports an overflow as an error, hence Add32.                           *)
(*                                                                         *)
(* The state machines IffReader, IffWriter, IffSession and IffTools are    *)
(* built on this module; IffTrace judges recorded executions with it.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

FORM   == <<70, 79, 82, 77>>
CATID  == <<67, 65, 84, 32>>
LISTID == <<76, 73, 83, 84>>
PROPID == <<80, 82, 79, 80>>
JJJJ   == <<74, 74, 74, 74>>
TEXTID == <<84, 69, 88, 84>>
ZeroId == <<0, 0, 0, 0>>

MaxInt == 2147483647
MinInt == (-2147483647) - 1

(* two's complement addition modulo 2^32 *)
Add32(a, b) ==
  IF b >= 0 /\ a > MaxInt - b
  THEN (a - MaxInt - 1) + (b - MaxInt - 1)
  ELSE IF b < 0 /\ a < MinInt - b
       THEN (a + MaxInt + 1) + (b + MaxInt + 1)
       ELSE a + b

Int32At(b, i) ==
  (IF b[i] >= 128 THEN b[i] - 256 ELSE b[i]) * 16777216 + b[i+1] * 65536 + b[i+2] * 256 + b[i+3]

(* concatenation of a sequence of sequences; evaluates each of them once, unlike FlattenSeq *)
RECURSIVE FlattenPart(_, _, _)
FlattenPart(s, from, to) ==
  IF from > to THEN <<>> ELSE IF from = to THEN s[from]
  ELSE LET m == (from + to) \div 2 IN FlattenPart(s, from, m) \o FlattenPart(s, m + 1, to)
Flatten(seqs) == LET s == TLCEval(seqs) IN FlattenPart(s, 1, Len(s))

Bytes32(v) == << (v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256 >>

Zeros(n) == [i \in 1..n |-> 0]
PadLen(sz) == sz % 2
PadBytes(sz) == IF sz % 2 = 0 THEN <<>> ELSE <<0>>

(* the space a chunk of size sz takes in its group: header, body, padding byte *)
Space(sz) == Add32(Add32(8, sz), PadLen(sz))

---------------------------------------------------------------------------
(* Chunk trees                                                             *)

GroupKinds == {"form", "cat", "list", "prop"}

Node(id, k, sz, ty, props, kids, data, ext) ==
  [id |-> id, k |-> k, sz |-> sz, ty |-> ty, props |-> props, kids |-> kids, data |-> data, ext |-> ext]

RawNode(id, data) == Node(id, "raw", Len(data), ZeroId, <<>>, <<>>, data, <<>>)

RECURSIVE SumSpace(_, _)
SumSpace(szs, acc) == IF szs = <<>> THEN acc ELSE SumSpace(Tail(szs), Add32(acc, Space(Head(szs))))

(* the size a group with these PROPs and sub chunks must have *)
GroupSize(props, kids) ==
  FoldLeft(LAMBDA a, c : Add32(a, Space(c.sz)), FoldLeft(LAMBDA a, c : Add32(a, Space(c.sz)), 4, props), kids)

MkGroup(id, k, ty, props, kids) == Node(id, k, GroupSize(props, kids), ty, props, kids, <<>>, <<>>)
MkForm(ty, kids) == MkGroup(FORM, "form", ty, <<>>, kids)
MkProp(ty, kids) == MkGroup(PROPID, "prop", ty, <<>>, kids)
MkCat(ty, kids)  == MkGroup(CATID, "cat", ty, <<>>, kids)
MkList(ty, props, kids) == MkGroup(LISTID, "list", ty, props, kids)

---------------------------------------------------------------------------
(* Application-defined chunks: a kind is a sequence of numeric fields. The *)
(* value of a field is the sequence of its bytes, most significant first.  *)

FieldSize(t) == CASE t = "ub" -> 1 [] t \in {"uw", "w"} -> 2 [] t \in {"ul", "l", "id"} -> 4

Layouts == [ e1 |-> <<"ub", "ub", "uw">>,
             e2 |-> <<"l", "l">>,
             e3 |-> <<"ub", "uw", "w", "ul", "l", "id">>,
             e4 |-> <<>>,
             e5 |-> <<"id", "ub">>,
             e6 |-> <<"ul", "w">> ]
ExtKinds == DOMAIN Layouts

Default(k) == [i \in 1..Len(Layouts[k]) |-> Zeros(FieldSize(Layouts[k][i]))]

(* a field of fs bytes at position bp of a body of sz bytes *)
Fits(bp, fs, sz) == sz >= fs /\ bp <= sz - fs

(* number of leading fields that lie within the declared size *)
RECURSIVE FitFrom(_, _, _, _)
FitFrom(L, i, bp, sz) ==
  IF i > Len(L) \/ ~Fits(bp, FieldSize(L[i]), sz) THEN [n |-> i - 1, bp |-> bp]
  ELSE FitFrom(L, i + 1, bp + FieldSize(L[i]), sz)
FieldsWithin(k, sz) == FitFrom(Layouts[k], 1, 0, sz)

(* the rule of the check handlers of the test kinds: only e6 may refuse *)
ExtLegal(k, ext) == k # "e6" \/ ext[1][1] < 128

---------------------------------------------------------------------------
(* Registries: chains of nodes for form types, a global chain, a default.  *)
(* An entry assigns a slot to an identifier, and a slot has a kind.        *)

RECURSIVE ChainFind(_, _)
ChainFind(nodes, id) ==
  IF nodes = <<>> THEN 0
  ELSE LET s == {i \in 1..Len(nodes[1]) : nodes[1][i].id = id}
       IN IF s # {} THEN nodes[1][Min(s)].slot ELSE ChainFind(Tail(nodes), id)

(* the slot that handles identifier id directly inside a group of type scope *)
Find(reg, scope, id) ==
  LET f == {i \in 1..Len(reg.forms) : reg.forms[i].ty = scope}
      r == IF f = {} THEN 0 ELSE ChainFind(reg.forms[Min(f)].nodes, id)
      g == ChainFind(reg.glob, id)
  IN IF r # 0 THEN r ELSE IF g # 0 THEN g ELSE reg.def

KindOf(reg, scope, id) == reg.kinds[Find(reg, scope, id)]

DefaultReg ==
  [ forms |-> <<>>,
    glob  |-> << << [id |-> CATID, slot |-> 1], [id |-> FORM, slot |-> 2],
                    [id |-> LISTID, slot |-> 3], [id |-> PROPID, slot |-> 4] >> >>,
    def   |-> 5,
    kinds |-> <<"cat", "form", "list", "prop", "raw">> ]

---------------------------------------------------------------------------
(* Decode: the meaning of a byte stream.                                   *)
(*   ok    a hierarchy results                                             *)
(*   p     number of bytes consumed                                        *)
(*   anom  a negative size occurred: only memory safety is specified       *)
(*   warn  a diagnostic is due although reading succeeds                   *)
(*   ev    created chunks in order: <<slot, identifier, position of the    *)
(*         body>>, including the one at which reading failed               *)

Fail(ev) == [ok |-> FALSE, p |-> 0, anom |-> FALSE, warn |-> TRUE, ev |-> ev, node |-> <<>>]
Anomaly(ev) == [ok |-> FALSE, p |-> 0, anom |-> TRUE, warn |-> TRUE, ev |-> ev, node |-> <<>>]

(* skip what is left of the body after bp bytes, then the padding byte; q = position after bp *)
Finish(b, q, bp, sz, node, warn, ev) ==
  LET rest == IF bp < sz THEN sz - bp ELSE 0
      pd   == PadLen(sz)
  IN IF rest > Len(b) - q \/ pd > Len(b) - q - rest THEN Fail(ev)
     ELSE [ok |-> TRUE, p |-> q + rest + pd, anom |-> FALSE,
           warn |-> warn \/ (pd = 1 /\ b[q + rest + 1] # 0), ev |-> ev, node |-> node]

ExtValue(b, p, k, n) == \* the first n fields from offset p, the others at their defaults
  LET L == Layouts[k]
      off(i) == FoldLeft(LAMBDA a, t : a + FieldSize(t), 0, SubSeq(L, 1, i - 1))
  IN [i \in 1..Len(L) |-> IF i <= n THEN SubSeq(b, p + off(i) + 1, p + off(i) + FieldSize(L[i])) ELSE Zeros(FieldSize(L[i]))]

RECURSIVE RdChunk(_, _, _, _)
RECURSIVE RdSubs(_, _, _, _, _, _, _, _, _, _, _)

RdChunk(b, p, scope, reg) ==
  IF Len(b) - p < 8 THEN Fail(<<>>)
  ELSE
  LET id   == SubSeq(b, p + 1, p + 4)
      sz   == Int32At(b, p + 5)
      slot == Find(reg, scope, id)
      k    == reg.kinds[slot]
      q    == p + 8
      ev   == << <<slot, id, q>> >>
  IN IF k = "raw"
     THEN IF sz < 0 \/ sz > Len(b) - q THEN Fail(ev)
          ELSE Finish(b, q + sz, sz, sz, RawNode(id, SubSeq(b, q + 1, q + sz)), FALSE, ev)
     ELSE IF sz < 0 THEN Anomaly(ev)
     ELSE IF k \in GroupKinds
     THEN IF sz < 4
          THEN Finish(b, q, 0, sz, Node(id, k, sz, ZeroId, <<>>, <<>>, <<>>, <<>>), FALSE, ev)
          ELSE IF Len(b) - q < 4 THEN Fail(ev)
          ELSE LET ty == SubSeq(b, q + 1, q + 4)
                   s  == RdSubs(b, q + 4, 4, sz, k, ty, reg, <<>>, <<>>, FALSE, ev)
               IN IF ~s.ok THEN s
                  ELSE Finish(b, s.p, s.bp, sz, Node(id, k, sz, ty, s.props, s.kids, <<>>, <<>>),
                              s.warn \/ s.bp > sz, s.ev)
     ELSE LET w == FieldsWithin(k, sz)
          IN IF w.bp > Len(b) - q THEN Fail(ev)
             ELSE Finish(b, q + w.bp, w.bp, sz,
                         Node(id, k, sz, ZeroId, <<>>, <<>>, <<>>, TLCEval(ExtValue(b, q, k, w.n))), FALSE, ev)

(* sub chunks of a group until its size is used up *)
RdSubs(b, p, bp, sz, k, ty, reg, props, kids, warn, ev) ==
  IF bp >= sz THEN [ok |-> TRUE, p |-> p, bp |-> bp, props |-> props, kids |-> kids, warn |-> warn, ev |-> ev, anom |-> FALSE]
  ELSE LET c == RdChunk(b, p, ty, reg)
       IN IF ~c.ok THEN [c EXCEPT !.ev = ev \o @]
          ELSE IF k = "list" /\ c.node.id = PROPID
          THEN RdSubs(b, c.p, bp + Space(c.node.sz), sz, k, ty, reg, Append(props, c.node), kids, warn \/ c.warn, ev \o c.ev)
          ELSE RdSubs(b, c.p, bp + Space(c.node.sz), sz, k, ty, reg, props, Append(kids, c.node), warn \/ c.warn, ev \o c.ev)

Decode(b, reg) == RdChunk(b, 0, ZeroId, reg)

---------------------------------------------------------------------------
(* Encode                                                                  *)

RECURSIVE Encode(_)
Body(n) ==
  CASE n.k = "raw" -> n.data
    [] n.k \in GroupKinds ->
         IF n.sz < 4 THEN Zeros(IF n.sz < 0 THEN 0 ELSE n.sz)
         ELSE LET subs == Flatten([i \in 1..Len(n.props) |-> Encode(n.props[i])])
                          \o Flatten([i \in 1..Len(n.kids) |-> Encode(n.kids[i])])
                  bp == GroupSize(n.props, n.kids)
              IN n.ty \o subs \o Zeros(IF bp < n.sz THEN n.sz - bp ELSE 0)
    [] OTHER ->
         LET w == FieldsWithin(n.k, n.sz)
         IN Flatten(SubSeq(n.ext, 1, w.n)) \o Zeros(IF w.bp < n.sz THEN n.sz - w.bp ELSE 0)
Encode(n) == n.id \o Bytes32(n.sz) \o Body(n) \o PadBytes(n.sz)

(* chunks handled by a traversal in document order, PROPs first: <<slot, identifier>> *)
RECURSIVE Handled(_, _, _)
Handled(n, scope, reg) ==
  << <<Find(reg, scope, n.id), n.id>> >>
  \o Flatten([i \in 1..Len(n.props) |-> Handled(n.props[i], n.ty, reg)])
  \o Flatten([i \in 1..Len(n.kids) |-> Handled(n.kids[i], n.ty, reg)])

(* the kind of every chunk is that of the handler registered for it *)
RECURSIVE WellKinded(_, _, _)
WellKinded(n, scope, reg) ==
  /\ n.k = KindOf(reg, scope, n.id)
  /\ \A i \in 1..Len(n.props) : WellKinded(n.props[i], n.ty, reg)
  /\ \A i \in 1..Len(n.kids) : WellKinded(n.kids[i], n.ty, reg)

(* group sizes equal the size of the contents, everywhere; no negative size *)
RECURSIVE Consistent(_)
Consistent(n) ==
  /\ n.sz >= 0
  /\ n.k \in GroupKinds =>
       /\ n.sz = GroupSize(n.props, n.kids)
       /\ \A i \in 1..Len(n.props) : Consistent(n.props[i])
       /\ \A i \in 1..Len(n.kids) : Consistent(n.kids[i])
  /\ n.k = "raw" => n.sz = Len(n.data)

(* no application chunk carries values in fields beyond its declared size *)
RECURSIVE Canonical(_)
Canonical(n) ==
  /\ n.k \in ExtKinds => \A i \in 1..Len(n.ext) : i > FieldsWithin(n.k, n.sz).n => n.ext[i] = Default(n.k)[i]
  /\ \A i \in 1..Len(n.props) : Canonical(n.props[i])
  /\ \A i \in 1..Len(n.kids) : Canonical(n.kids[i])

(* a tree that reading can produce from its own encoding: PROPs of a LIST are kept apart *)
RECURSIVE Separated(_)
Separated(n) ==
  /\ n.k = "list" => \A i \in 1..Len(n.kids) : n.kids[i].id # PROPID
  /\ \A i \in 1..Len(n.props) : Separated(n.props[i])
  /\ \A i \in 1..Len(n.kids) : Separated(n.kids[i])

---------------------------------------------------------------------------
(* The rules                                                               *)

LegalChar(c) == c >= 32 /\ c <= 126
LegalId(id) == (\A i \in 1..4 : LegalChar(id[i])) /\ id[1] # 32

Reserved ==
  {FORM, CATID, LISTID, PROPID, JJJJ}
  \cup {<<76, 73, 83, d>> : d \in 49..57} \cup {<<70, 79, 82, d>> : d \in 49..57} \cup {<<67, 65, 84, d>> : d \in 49..57}

LegalFormType(id) ==
  /\ LegalId(id)
  /\ \A i \in 1..4 : ~(id[i] >= 97 /\ id[i] <= 122) /\ id[i] # 46
  /\ id \notin Reserved

MemberIds == {FORM, CATID, LISTID}

LegalMember(holderType, c) == c.id \in MemberIds /\ (holderType = JJJJ \/ c.ty = holderType)

RECURSIVE ChunkConforms(_)
SubsConform(n) ==
  /\ \A i \in 1..Len(n.props) : ChunkConforms(n.props[i])
  /\ \A i \in 1..Len(n.kids) : ChunkConforms(n.kids[i])
ChunkConforms(n) ==
  /\ LegalId(n.id)
  /\ CASE n.k = "raw" -> TRUE
       [] n.k = "form" -> /\ LegalFormType(n.ty)
                          /\ \A i \in 1..Len(n.kids) : n.kids[i].id # PROPID
                          /\ SubsConform(n)
                          /\ n.sz = GroupSize(<<>>, n.kids)
       [] n.k = "prop" -> /\ LegalFormType(n.ty)
                          /\ \A i \in 1..Len(n.kids) : n.kids[i].id \notin (MemberIds \cup {PROPID})
                          /\ SubsConform(n)
                          /\ n.sz = GroupSize(<<>>, n.kids)
       [] n.k \in {"cat", "list"} ->
                          /\ LegalId(n.ty)
                          /\ \A i \in 1..Len(n.kids) : LegalMember(n.ty, n.kids[i])
                          /\ SubsConform(n)
                          /\ n.sz = GroupSize(n.props, n.kids)
       [] OTHER -> ExtLegal(n.k, n.ext)

Conforms(n) == n.id \in MemberIds /\ ChunkConforms(n)

(* why a hierarchy is refused: the kinds of violations in it (for reports and coverage) *)
RECURSIVE Violations(_)
Violations(n) ==
  (IF LegalId(n.id) THEN {} ELSE {"id"})
  \cup (IF n.k \in {"form", "prop"} /\ ~LegalFormType(n.ty) THEN {"formtype"} ELSE {})
  \cup (IF n.k \in {"cat", "list"} /\ ~LegalId(n.ty) THEN {"contentstype"} ELSE {})
  \cup (IF n.k = "form" /\ \E i \in 1..Len(n.kids) : n.kids[i].id = PROPID THEN {"prop in form"} ELSE {})
  \cup (IF n.k = "prop" /\ \E i \in 1..Len(n.kids) : n.kids[i].id \in (MemberIds \cup {PROPID}) THEN {"group in prop"} ELSE {})
  \cup (IF n.k \in {"cat", "list"} /\ \E i \in 1..Len(n.kids) : n.kids[i].id \notin MemberIds THEN {"member"} ELSE {})
  \cup (IF n.k \in {"cat", "list"} /\ \E i \in 1..Len(n.kids) : n.kids[i].id \in MemberIds /\ ~LegalMember(n.ty, n.kids[i]) THEN {"member type"} ELSE {})
  \cup (IF n.k \in GroupKinds /\ n.sz # GroupSize(n.props, n.kids) THEN {"size"} ELSE {})
  \cup (IF n.k \in ExtKinds /\ ~ExtLegal(n.k, n.ext) THEN {"ext"} ELSE {})
  \cup UNION {Violations(n.props[i]) : i \in 1..Len(n.props)}
  \cup UNION {Violations(n.kids[i]) : i \in 1..Len(n.kids)}

---------------------------------------------------------------------------
(* Textual representation, as bytes                                        *)

RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))
Decimal(n) ==
  IF n >= 0 THEN DecDigits(n)
  ELSE IF n = MinInt THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
  ELSE <<45>> \o DecDigits(-n)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Indent(k) == [i \in 1..(2 * k) |-> 32]

SChunkSize == <<99,104,117,110,107,83,105,122,101,32,61,32>>            \* "chunkSize = "
SOpen      == <<39,32,61,32,123,10>>                                    \* "' = {\n"
SFormType  == <<102,111,114,109,84,121,112,101,32,61,32,39>>            \* "formType = '"
SContType  == <<99,111,110,116,101,110,116,115,84,121,112,101,32,61,32,39>> \* "contentsType = '"
SQuoteEnd  == <<39,59,10>>                                              \* "';\n"
SProps     == <<112,114,111,112,32,61,32,91,10>>                        \* "prop = [\n"
SListOpen  == <<91,10>>                                                 \* "[\n"
SListClose == <<93,59,10>>                                              \* "];\n"
SText      == <<116,101,120,116,32,61,32,39,10>>                        \* "text = '\n"
SBytes     == <<98,121,116,101,115,32,61,32,10>>                        \* "bytes = \n"
SSemi      == <<59,10>>                                                 \* ";\n"
SClose     == <<125,10,10>>                                             \* "}\n\n"
SField     == <<102,105,101,108,100,32,61>>                             \* "field ="

RECURSIVE Render(_, _)
RenderSubs(cs, ind) == Flatten([i \in 1..Len(cs) |-> Render(cs[i], ind + 1)])
RenderSubList(cs, ind) == Indent(ind) \o SListOpen \o RenderSubs(cs, ind) \o Indent(ind) \o SListClose
HexLine(data, ind) ==
  Flatten([i \in 1..Len(data) |->
     (IF i > 1 /\ i % 10 = 1 THEN <<10>> \o Indent(ind + 1) ELSE <<>>)
     \o <<HexDigit(data[i] \div 16), HexDigit(data[i] % 16), 32>>])
RenderBody(n, ind) ==
  CASE n.k = "raw" /\ n.id = TEXTID ->
         Indent(ind) \o SText \o Indent(ind + 1) \o n.data \o <<10>> \o Indent(ind) \o SQuoteEnd
    [] n.k = "raw" /\ n.id # TEXTID ->
         Indent(ind) \o SBytes \o Indent(ind + 1) \o HexLine(n.data, ind) \o <<10>> \o Indent(ind) \o SSemi
    [] n.k \in {"form", "prop"} ->
         Indent(ind) \o SFormType \o n.ty \o SQuoteEnd \o RenderSubList(n.kids, ind)
    [] n.k = "cat" ->
         Indent(ind) \o SContType \o n.ty \o SQuoteEnd \o RenderSubList(n.kids, ind)
    [] n.k = "list" ->
         Indent(ind) \o SContType \o n.ty \o SQuoteEnd
         \o Indent(ind) \o SProps \o RenderSubs(n.props, ind) \o Indent(ind) \o SListClose
         \o RenderSubList(n.kids, ind)
    [] OTHER -> \* the print handler of the test kinds: one line per field
         Flatten([i \in 1..Len(n.ext) |->
            Indent(ind) \o SField \o Flatten([j \in 1..Len(n.ext[i]) |->
               <<32, HexDigit(n.ext[i][j] \div 16), HexDigit(n.ext[i][j] % 16)>>]) \o SSemi])
Render(n, ind) ==
  Indent(ind) \o <<39>> \o n.id \o SOpen
  \o Indent(ind + 1) \o SChunkSize \o Decimal(n.sz) \o SSemi
  \o RenderBody(n, ind)
  \o Indent(ind) \o SClose

---------------------------------------------------------------------------
(* Contents type of a concatenation, member by member                      *)

TrackType(ty, count, memberId, memberTy) ==
  IF memberId \notin MemberIds THEN ty
  ELSE IF count = 0 THEN memberTy
  ELSE IF ty # memberTy THEN JJJJ ELSE ty

RECURSIVE FoldType(_, _, _)
FoldType(ty, i, members) ==
  IF i > Len(members) THEN ty
  ELSE FoldType(TrackType(ty, i - 1, members[i].id, members[i].ty), i + 1, members)

=============================================================================
