----------------------------- MODULE IffTrace ------------------------------
(***************************************************************************)
(* Judges executions recorded from the implementation.                     *)
(*                                                                         *)
(* A log is a sequence of events, one per call, each with its arguments,   *)
(* its outcome and the hierarchy it left behind.  The session state st     *)
(* (registries, forest, what was read and written before) is stepped from  *)
(* event to event, and Judge gives the properties an event violates.  The  *)
(* state after an event is the observed one, so that every call is judged  *)
(* against the state it really started from and one defect is not reported *)
(* under the name of another property.                                     *)
(*                                                                         *)
(* Input: environment variable IFF_LOG (ndjson); constant Focus (the       *)
(* properties to judge).  Output: lines "REJECT|property|case|event|     *)
(* operation|reason", and one line "JUDGED|events|length|judgements".      *)
(***************************************************************************)
EXTENDS IffForest, IffCommandLine, Functions, Json, IOUtils

CONSTANT Focus

Log == ndJsonDeserialize(IOEnv.IFF_LOG)

VARIABLES i, st

ASSUME TLCSet(1, 0)

V(p, cond, msg) ==
  IF p \notin Focus THEN {}
  ELSE IF TLCSet(1, TLCGet(1) + 1) /\ cond THEN {} ELSE {<<p, msg>>}

---------------------------------------------------------------------------
(* Observations                                                            *)

RECURSIVE TreeAt(_, _)
TreeAt(nodes, j) ==
  IF j = 0 THEN BadNode
  ELSE LET r == nodes[j]
       IN TNode(r.n, r.par, r.id, r.k, r.sz, r.ty,
                [x \in 1..Len(r.props) |-> TreeAt(nodes, r.props[x])], [x \in 1..Len(r.kids) |-> TreeAt(nodes, r.kids[x])], r.data, r.ext)
TreeOf(nodes) == IF nodes = <<>> THEN BadNode ELSE TLCEval(TreeAt(nodes, 1))

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
NoFn == [x \in {} |-> 0]

BagOf(s) == [x \in Range(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
WithinBag(s, t) == LET a == BagOf(s) b == BagOf(t) IN \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x]
SameBag(s, t) == BagOf(s) = BagOf(t)

NoPos(ev) == [j \in 1..Len(ev) |-> <<ev[j][1], ev[j][2]>>]
(* positions as far as they could be observed *)
SamePos(obs, ev) == \A j \in 1..Len(obs) : j > Len(ev) \/ obs[j][3] = -1 \/ obs[j][3] = ev[j][3]

Own(r) == r \in 1..8 \* registries whose handlers record their calls
RegOf(r) == IF r \in {0, 9} THEN DefaultReg ELSE st.regs[r]
(* calls of handlers that are recorded: not those of the library's own ones, which a registry extending the default one has in its first slots *)
Seen(r, ev) == IF Own(r) /\ st.regs[r].lib THEN SelectSeq(ev, LAMBDA x : x[1] > 5) ELSE ev

(* diagnostics of a call, wherever they are due *)
Said(e) == IF st.cb = "capture" THEN e.diag ELSE e.err
SaidHash(e) == IF st.cb = "capture" THEN e.dh ELSE e.eh
Misplaced(e) == (IF st.cb = "capture" THEN e.err ELSE e.diag) # 0
OnlyCallback(e) == V("C18", ~Misplaced(e) /\ (e.op = "print" \/ e.out = <<>>), "diagnostics outside the callback")

(* the same operation on the same data gives the same text *)
SameText(key, e) ==
  V("C18", \A j \in 1..Len(st.texts) : st.texts[j].key = key => st.texts[j].h = SaidHash(e), "diagnostic text differs between runs")

RootOf(n) == CHOOSE r \in DOMAIN st.trees : n \in Ids(st.trees[r])
Known(n) == \E r \in DOMAIN st.trees : n \in Ids(st.trees[r])
TreeHolding(n) == st.trees[RootOf(n)]
ChunkOf(n) == At(TreeHolding(n), n)[1]
Unchanged(e, nodes, n) == e.dumped => TreeOf(nodes) = TreeHolding(n)

RECURSIVE HasExt(_)
HasExt(v) == v.k \in ExtKinds \/ (\E j \in 1..Len(v.props) : HasExt(v.props[j])) \/ (\E j \in 1..Len(v.kids) : HasExt(v.kids[j]))
RECURSIVE NoExt(_) \* the tree without the values of application-defined fields
NoExt(v) == [v EXCEPT !.ext = <<>>, !.props = TLCEval([j \in 1..Len(v.props) |-> NoExt(v.props[j])]), !.kids = TLCEval([j \in 1..Len(v.kids) |-> NoExt(v.kids[j])])]
RECURSIVE NoTy(_) \* the tree without group types
NoTy(v) == [v EXCEPT !.ty = ZeroId, !.props = TLCEval([j \in 1..Len(v.props) |-> NoTy(v.props[j])]), !.kids = TLCEval([j \in 1..Len(v.kids) |-> NoTy(v.kids[j])])]

---------------------------------------------------------------------------
(* Reading.  b: the bytes from the position of the stream; whole: the main *)
(* chunk of a file was read, rather than one chunk of a stream             *)

Unavailable == {"missing", "dir"}

JudgeReadOf(e, b, whole, scope, mode, errhit, hitpos, consumed) ==
  LET reg  == RegOf(e.r)
      d    == RdChunk(b, 0, scope, reg)
      seen == Seen(e.r, d.ev)
      must == ~d.ok \/ (errhit /\ hitpos < d.p)            \* reading must fail
      t    == TreeOf(e.nodes)
      v    == Plain(t)
      same == e.ok /\ Sound(t) /\ v = d.node
      trail == whole /\ d.ok /\ Len(b) > d.p
  IN IF d.anom
     THEN V("C02", e.ok \/ e.dl = 0, "memory left allocated after failing") \cup OnlyCallback(e)
     ELSE
     V("C01", must \/ e.ok, "complete stream not read")
     \cup V("C01", ~e.ok \/ must \/ (Sound(t) /\ v = d.node), "hierarchy differs from the stream")
     \cup V("C01", ~e.ok \/ must \/ Linked(t, 0), "wrong parent links")
     \cup V("C02", ~must \/ ~e.ok, "incomplete stream accepted")
     \cup V("C02", e.ok \/ e.dl = 0, "memory left allocated after failing")
     \cup V("C17", e.ok \/ e.dl = 0, "memory left allocated after failing")
     \cup (IF Own(e.r)
           THEN V("C14", must \/ ~e.ok \/ e.cre = NoPos(seen), "chunks created by other handlers")
                \cup V("C14", must \/ ~e.ok \/ NoPos(e.rd) = NoPos(seen), "chunks read by other handlers")
                \cup V("C14", ~must \/ e.ok \/ IsPrefix(e.cre, NoPos(seen)), "chunks created by other handlers (failing)")
                \cup V("C14", ~must \/ e.ok \/ IsPrefix(NoPos(e.rd), NoPos(seen)), "chunks read by other handlers (failing)")
                \cup V("C14", ~must \/ e.ok \/ SameBag(e.fre, e.cre), "chunks not freed by the handlers that created them")
           ELSE {})
     \cup (IF d.ok /\ HasExt(d.node)
           THEN V("C15", must \/ same \/ (e.ok /\ NoExt(v) = NoExt(d.node)), "chunks around application-defined chunks differ")
                \cup V("C15", must \/ same, "fields of application-defined chunks differ")
                \cup V("C15", must \/ ~e.ok \/ SamePos(e.rd, seen), "bodies read from other places")
                \cup V("C16", must \/ same \/ ~e.ok \/ NoExt(v) # NoExt(d.node), "field values differ")
           ELSE {})
     \cup V("C18", e.ok \/ Said(e) > 0, "failure without a diagnostic")
     \cup V("C18", ~e.ok \/ must \/ ~(d.warn \/ trail) \/ Said(e) > 0, "peculiarity of the file not reported")
     \cup V("C18", ~e.ok \/ must \/ d.warn \/ trail \/ ~Conforms(d.node) \/ Said(e) = 0, "diagnostic for a conforming file")
     \cup OnlyCallback(e)
     \cup V("C22", must \/ ~e.ok \/ consumed = -1 \/ consumed = d.p \/ (whole /\ trail /\ consumed = d.p + 1), "other bytes consumed than those of the chunk")
     \cup V("C22", must \/ ~e.ok \/ SamePos(e.rd, seen), "sub chunk read from another place")

SameInput(x, y) == x.content = y.content /\ x.r = y.r /\ x.chunkwise = y.chunkwise /\ x.scope = y.scope

ReadKey(e) == [op |-> "read", content |-> e.content, r |-> e.r, mode |-> e.mode, as |-> e.as, cw |-> e.chunkwise, scope |-> e.scope, errat |-> e.errat, hit |-> e.hit, oom |-> e.oom]

Closed(e) == V("C17", e.df = 0, "file left open, or another one closed")

JudgeRead(e) ==
  Closed(e) \cup
  IF e.mode \in Unavailable
  THEN V("C02", ~e.ok /\ e.dl = 0, "hierarchy out of nothing") \cup V("C18", Said(e) > 0, "failure without a diagnostic") \cup OnlyCallback(e)
       \cup V("C24", ~e.ok, "hierarchy out of nothing")
  ELSE
  JudgeReadOf(e, e.content, ~e.chunkwise, e.scope, e.mode, e.hit, e.hitpos, e.consumed)
  \cup SameText(ReadKey(e), e)
  \cup (IF e.hit THEN {}
        ELSE V("C24", \A j \in 1..Len(st.reads) : SameInput(st.reads[j], e) => (st.reads[j].ok = e.ok /\ (e.ok => st.reads[j].v = Plain(TreeOf(e.nodes)))),
               "the kind of source changes the result"))
  \cup (IF e.hit THEN {}
        ELSE V("C04", \A j \in 1..Len(st.writes) :
                 (st.writes[j].ok /\ st.writes[j].bytes = e.content /\ st.writes[j].r = e.r /\ st.writes[j].back)
                   => (e.ok /\ Plain(TreeOf(e.nodes)) = st.writes[j].v), "written hierarchy not read back"))

---------------------------------------------------------------------------
(* Writing                                                                 *)

Regular(v, scope, reg) == Consistent(v) /\ WellKinded(v, scope, reg)

JudgeWriteOf(e, v, scope, bytes, must, prefixed) == \* must: an output operation fails
  LET reg == RegOf(e.r)
      reg_ok == Regular(v, scope, reg)
      enc == TLCEval(Encode(v))
      same(j) == st.writes[j].v = v /\ st.writes[j].r = e.r /\ st.writes[j].scope = scope
      refs == {j \in 1..Len(st.writes) : same(j) /\ st.writes[j].clean /\ st.writes[j].ok}
      ref == IF refs = {} THEN enc ELSE st.writes[Min(refs)].bytes
  IN IF ~reg_ok THEN OnlyCallback(e)
     ELSE
     V("C03", must \/ e.ok, "hierarchy not written")
     \cup V("C03", must \/ ~e.ok \/ bytes = enc, "not the encoding of the hierarchy")
     \cup V("C05", ~must \/ ~e.ok, "success although output failed")
     \cup V("C05", ~e.ok \/ bytes = ref, "success although bytes are missing")
     \cup V("C05", e.ok \/ ~prefixed \/ IsPrefix(bytes, ref), "other bytes stored before the failure")
     \cup V("C05", must \/ refs = {} \/ e.ok, "hierarchy cannot be written again")
     \cup (IF HasExt(v) THEN V("C15", must \/ ~e.ok \/ bytes = enc, "body of an application-defined chunk") 
                             \cup V("C16", must \/ ~e.ok \/ Len(bytes) # Len(enc) \/ bytes = enc, "field values in the output") ELSE {})
     \cup (IF Own(e.r) THEN V("C14", must \/ ~e.ok \/ e.wr = Seen(e.r, Handled(v, scope, reg)), "chunks written by other handlers")
                            \cup V("C14", ~must \/ IsPrefix(e.wr, Seen(e.r, Handled(v, scope, reg))), "chunks written by other handlers (failing)") ELSE {})
     \cup V("C17", e.dl = 0, "memory left allocated by writing")
     \cup V("C18", e.ok \/ Said(e) > 0, "failure without a diagnostic")
     \cup V("C18", ~e.ok \/ must \/ Said(e) = 0, "diagnostic although writing succeeded")
     \cup OnlyCallback(e)
     \cup V("C24", must \/ refs = {} \/ (e.ok /\ bytes = ref), "the kind of destination changes the result")

JudgeWrite(e) ==
  Closed(e) \cup
  IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN {}
  ELSE
  LET v == Plain(ChunkOf(e.n))
      must == e.hit \/ e.flusherr \/ (e.mode \in {"path", "write"} /\ e.cap >= 0 /\ e.cap < Len(Encode(v)))
  IN JudgeWriteOf(e, v, e.scope, e.bytes, must, ~e.once /\ e.mode \notin {"closedpipe", "full", "nodir"})
     \cup V("C23", Unchanged(e, e.nodes, e.n), "writing changed the hierarchy")
     \cup V("C05", Unchanged(e, e.nodes, e.n), "hierarchy not intact")
     \cup SameText([op |-> "write", n |-> v, r |-> e.r, mode |-> e.mode, as |-> e.as, cap |-> e.cap, fail |-> e.fail, oom |-> e.oom, hit |-> e.hit], e)
     \cup (IF ~must /\ e.n \in DOMAIN st.from
           THEN LET c == st.from[e.n]
                    d == Decode(c, RegOf(e.r))
                IN V("C04", ~(d.ok /\ Conforms(d.node) /\ Encode(d.node) = c) \/ (e.ok /\ e.bytes = c), "conforming file not reproduced")
           ELSE {})

JudgeWritec(e) ==
  IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN {}
  ELSE LET v == Plain(ChunkOf(e.n))
       IN IF ~Regular(v, e.scope, RegOf(e.r)) THEN {}
          ELSE V("C22", e.ok /\ e.bytes = Encode(v), "chunk not written directly behind the previous one")
               \cup V("C22", e.kept, "other bytes of the destination changed")
               \cup V("C05", ~(e.whole /\ e.ok) \/ e.stored, "success although bytes were not stored yet")
               \cup JudgeWriteOf(e, v, e.scope, e.bytes, FALSE, TRUE)

---------------------------------------------------------------------------
(* Building                                                                *)

CreateExpected(e) == \* the value of the chunk that this function creates
  CASE e.fn = "createForm" -> Node(FORM, "form", e.sz, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createProp" -> Node(PROPID, "prop", e.sz, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createCAT"  -> Node(CATID, "cat", e.sz, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createList" -> Node(LISTID, "list", e.sz, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createEmptyForm" -> MkForm(e.ty, <<>>)
    [] e.fn = "createEmptyProp" -> MkProp(e.ty, <<>>)
    [] e.fn = "createEmptyCAT"  -> MkCat(JJJJ, <<>>)
    [] e.fn = "createEmptyList" -> MkList(JJJJ, <<>>, <<>>)
    [] e.fn = "createEmptyCATWithContentsType"  -> MkCat(e.ty, <<>>)
    [] e.fn = "createEmptyListWithContentsType" -> MkList(e.ty, <<>>, <<>>)
    [] e.fn = "createRawChunk" -> RawNode(e.id, e.data)
    [] e.fn = "createGroup" -> Node(e.id, e.nodes[1].k, e.sz, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createEmptyGroup" -> Node(e.id, e.nodes[1].k, 4, e.ty, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createUnparsedForm" -> Node(FORM, "form", e.sz, ZeroId, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createUnparsedProp" -> Node(PROPID, "prop", e.sz, ZeroId, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createUnparsedCAT"  -> Node(CATID, "cat", e.sz, ZeroId, <<>>, <<>>, <<>>, <<>>)
    [] e.fn = "createUnparsedList" -> Node(LISTID, "list", e.sz, ZeroId, <<>>, <<>>, <<>>, <<>>)
    [] OTHER -> Node(e.id, e.nodes[1].k, e.sz, ZeroId, <<>>, <<>>, <<>>, e.nodes[1].ext)

JudgeMk(e) ==
  (IF e.oom > 0 THEN V("C17", e.n = 0 /\ e.dl = 0, "memory left allocated by a failing creation") ELSE V("C11", e.n # 0, "chunk not created"))
  \cup (IF e.n = 0 THEN {}
        ELSE V("C11", LET t == TreeOf(e.nodes) IN Sound(t) /\ t.par = 0 /\ Plain(t) = CreateExpected(e), "created chunk differs")
             \cup V("C13", e.fn \in {"createEmptyCAT", "createEmptyList"} => e.nodes[1].ty = JJJJ, "initial contents type"))
  \cup OnlyCallback(e)

JudgeAdd(e) ==
  LET t == TreeHolding(e.p)
      g == At(t, e.p)[1]
      c == st.trees[e.c]
      exp == TLCEval(Change(t, e.p, AddedBy(e.fn, g, c)))
      got == TreeOf(e.nodes)
      gg == At(got, e.p)
  IN IF ~Known(e.p) \/ e.c \notin DOMAIN st.trees \/ ~Sound(t) \/ ~Sound(c) THEN {}
     ELSE V("C11", Sound(got) /\ NoTy(got) = NoTy(exp), "hierarchy after adding differs")
          \cup V("C11", e.fn \in Tracking \/ got = exp, "group type changed by adding")
          \cup V("C13", gg # <<>> /\ gg[1].ty = (At(exp, e.p)[1]).ty, "contents type after adding")
          \cup OnlyCallback(e)

JudgePayload(e) ==
  LET t == TreeHolding(e.n)
      c == At(t, e.n)[1]
      exp == Change(t, e.n, [c EXCEPT !.data = e.data, !.sz = Len(e.data)])
  IN IF ~Known(e.n) THEN {}
     ELSE V("C11", (e.fn = "fill" /\ Len(e.data) # c.sz) \/ TreeOf(e.nodes) = exp, "payload not taken over")

JudgeUpdate(e) ==
  IF ~Known(e.n) \/ ~Sound(TreeHolding(e.n)) THEN {}
  ELSE LET t == TreeHolding(e.n)
       IN V("C12", TreeOf(e.nodes) = Recalc(t, e.n), "sizes after recalculating") \cup OnlyCallback(e)

---------------------------------------------------------------------------
(* Inspecting                                                              *)

RECURSIVE NonNegative(_)
NonNegative(v) == v.sz >= 0 /\ (\A j \in 1..Len(v.props) : NonNegative(v.props[j])) /\ (\A j \in 1..Len(v.kids) : NonNegative(v.kids[j]))

JudgeCheck(e) ==
  IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN {}
  ELSE
  LET v == Plain(ChunkOf(e.n))
      reg == RegOf(e.r)
      verdict == IF e.chunkwise THEN ChunkConforms(v) ELSE Conforms(v)
      hs == Seen(e.r, Handled(v, e.scope, reg))
  IN IF ~WellKinded(v, e.scope, reg) THEN {}
     ELSE V("C06", e.v = verdict, IF verdict THEN "conforming hierarchy rejected" ELSE "non-conforming hierarchy accepted")
          \cup (IF Own(e.r) THEN V("C14", ~e.v \/ ~verdict \/ SameBag(e.chk, hs), "chunks checked by other handlers")
                                 \cup V("C14", WithinBag(e.chk, hs), "chunks checked by other handlers (failing)") ELSE {})
          \cup V("C17", e.dl = 0, "memory left allocated by checking")
          \cup V("C18", e.v \/ Said(e) > 0, "rejection without a diagnostic")
          \cup V("C18", ~e.v \/ ~verdict \/ Said(e) = 0, "diagnostic for a conforming hierarchy")
          \cup SameText([op |-> "check", v |-> v, r |-> e.r, cw |-> e.chunkwise, scope |-> e.scope], e)
          \cup OnlyCallback(e)
          \cup V("C23", Unchanged(e, e.nodes, e.n), "checking changed the hierarchy")
          \cup V("C23", \A j \in 1..Len(st.checks) : (st.checks[j].v = v /\ st.checks[j].r = e.r /\ st.checks[j].cw = e.chunkwise /\ st.checks[j].scope = e.scope) => st.checks[j].res = e.v,
                 "another verdict for the same hierarchy")

JudgeCmp(e) ==
  IF ~Known(e.a) \/ ~Known(e.b) \/ ~Sound(ChunkOf(e.a)) \/ ~Sound(ChunkOf(e.b)) THEN {}
  ELSE
  LET a == Plain(ChunkOf(e.a))
      b == Plain(ChunkOf(e.b))
      reg == RegOf(e.r)
      hs == Seen(e.r, Handled(a, e.scope, reg))
  IN IF ~WellKinded(a, e.scope, reg) \/ ~WellKinded(b, e.scope, reg) THEN {}
     ELSE V("C08", e.v = (a = b), IF a = b THEN "equal hierarchies compare unequal" ELSE "unequal hierarchies compare equal")
          \cup V("C04", a # b \/ e.v, "comparison does not confirm an equal hierarchy")
          \cup (IF Own(e.r) THEN V("C14", ~e.v \/ a # b \/ SameBag(e.cmp, hs), "chunks compared by other handlers")
                                 \cup V("C14", WithinBag(e.cmp, hs), "chunks compared by other handlers (unequal)") ELSE {})
          \cup V("C17", e.dl = 0, "memory left allocated by comparing")
          \cup OnlyCallback(e)
          \cup V("C23", Unchanged(e, e.nodes, e.a) /\ Unchanged(e, e.nodes2, e.b), "comparing changed a hierarchy")

JudgeSearch(e) ==
  IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN {}
  ELSE LET exp == Search(ChunkOf(e.n), Range(e.types))
       IN V("C09", e.count = Len(exp), "number of forms found")
          \cup V("C09", e.res = exp, "forms found")
          \cup V("C17", e.dl = 0 /\ e.held <= 1, "memory left allocated by searching")
          \cup OnlyCallback(e)
          \cup V("C23", Unchanged(e, e.nodes, e.n), "searching changed the hierarchy")

Numbers(cs) == [j \in 1..Len(cs) |-> cs[j].n]
GetExpected(e, t) ==
  CASE e.fn = "get" -> Numbers(Lookup(t, e.n, e.id))
    [] e.fn = "getall" -> Numbers(AllKids(t, e.n, e.id))
    [] e.fn \in {"getdata", "getp"} -> Numbers(KidWithId(At(t, e.n)[1], e.id))
    [] e.fn = "getprop" -> Numbers(FirstWith(At(t, e.n)[1].props, LAMBDA q : q.ty = e.id))
JudgeGet(e) ==
  IF ~Known(e.n) \/ ~Sound(TreeHolding(e.n)) THEN {}
  ELSE LET t == TreeHolding(e.n)
           exp == GetExpected(e, t)
       IN V("C10", e.count = Len(exp) /\ e.res = exp, "chunks looked up")
          \cup V("C17", e.dl = 0 /\ e.held <= (IF e.fn = "getall" THEN 1 ELSE 0), "memory left allocated by looking up")
          \cup OnlyCallback(e)
          \cup V("C23", Unchanged(e, e.nodes, e.n), "looking up changed the hierarchy")

JudgePrint(e) ==
  IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN {}
  ELSE LET v == Plain(ChunkOf(e.n))
           reg == RegOf(e.r)
       IN IF ~WellKinded(v, e.scope, reg) THEN {}
          ELSE V("C19", e.out = Render(v, e.indent), "textual representation")
               \cup (IF Own(e.r) THEN V("C14", e.prt = Seen(e.r, Handled(v, e.scope, reg)), "chunks printed by other handlers") ELSE {})
               \cup V("C17", e.dl = 0, "memory left allocated by printing")
               \cup V("C18", ~Misplaced(e) /\ Said(e) = 0, "diagnostic while printing")
               \cup V("C23", Unchanged(e, e.nodes, e.n), "printing changed the hierarchy")
               \cup V("C23", \A j \in 1..Len(st.prints) : (st.prints[j].v = v /\ st.prints[j].r = e.r /\ st.prints[j].indent = e.indent) => st.prints[j].out = e.out, "another text for the same hierarchy")

JudgeFree(e) ==
  IF e.n \notin DOMAIN st.trees THEN {}
  ELSE LET v == Plain(st.trees[e.n])
       IN V("C17", ~Sound(st.trees[e.n]) \/ ~WellKinded(v, e.scope, RegOf(e.r)) \/ e.dl = -st.own[e.n], "freeing does not release what was allocated")
          \cup OnlyCallback(e)
          \cup (IF Own(e.r) /\ Sound(st.trees[e.n]) /\ WellKinded(v, e.scope, RegOf(e.r))
                THEN V("C14", SameBag(e.fre, Seen(e.r, Handled(v, e.scope, RegOf(e.r)))), "chunks freed by other handlers") ELSE {})

JudgeFind(e) == V("C14", e.slot = Find(RegOf(e.r), e.scope, e.id), "another handler found") \cup OnlyCallback(e)

JudgeId(e) ==
  V("C07", e.v = (IF e.fn = "chkid" THEN LegalId(e.id) ELSE LegalFormType(e.id)), "legality")
  \cup V("C18", e.v \/ Said(e) > 0, "rejection without a diagnostic") \cup OnlyCallback(e)

(* all identifiers: e.sets lists the distinct sets of accepted second halves, as ranges of the fourth *)
(* character per third character, with the first halves they were observed for                      *)
JudgeIdSweep(e) ==
  LET legal(id) == IF e.fn = "chkid" THEN LegalId(id) ELSE LegalFormType(id)
      okc(c) == LegalChar(c) /\ (e.fn = "chkid" \/ (~(c >= 97 /\ c <= 122) /\ c # 46))
      special(w) == e.fn # "chkid" /\ \E r \in Reserved : w = r[1] * 256 + r[2]
      start(w) == LET a == w \div 256 IN okc(a) /\ a # 32 /\ okc(w % 256)
      acc(s, x, y) == \E j \in 1..Len(s.acc[x + 1]) : s.acc[x + 1][j][1] <= y /\ y <= s.acc[x + 1][j][2]
      none(s) == \A x \in 0..255 : s.acc[x + 1] = <<>>
      plain(s) == \A x, y \in 0..255 : acc(s, x, y) = (okc(x) /\ okc(y))
      exact(s, w) == \A x, y \in 0..255 : acc(s, x, y) = legal(<<w \div 256, w % 256, x, y>>)
      right(s) == LET isNone == none(s) isPlain == plain(s)
                  IN \A j \in 1..Len(s.where) :
                       LET w == s.where[j] IN IF ~start(w) THEN isNone ELSE IF special(w) THEN exact(s, w) ELSE isPlain
  IN V("C07", \A j \in 1..Len(e.sets) : right(e.sets[j]), "legality (sweep)")
     \cup V("C07", FoldLeft(LAMBDA a, s : a + Len(s.where), 0, e.sets) = 65536, "legality (sweep incomplete)")

JudgePrim(e) ==
  V("C16", e.wrote = e.vals, "bytes written") \cup V("C16", e.back = e.vals, "value read back") \cup V("C16", ~e.bad, "reading or writing a number")

(* the destination has room for limit bytes, and the source ends after them: a number is written or read if all of its bytes are within *)
JudgePrimCut(e) ==
  LET upto(j) == FoldLeft(LAMBDA a, f : a + f.size, 0, SubSeq(e.fields, 1, j))
      fit == Max({0} \cup {upto(j) : j \in {x \in 1..Len(e.fields) : upto(x) <= e.limit}})
      room == IF e.limit < Len(e.vals) THEN e.limit ELSE Len(e.vals)
  IN V("C16", \A j \in 1..Len(e.fields) : e.fields[j].w = (upto(j) <= e.limit), "number taken for written, or not")
     \cup V("C16", \A j \in 1..Len(e.fields) : e.fields[j].r = (upto(j) <= e.limit), "number taken for read, or not")
     \cup V("C16", IsPrefix(e.wrote, e.vals) /\ Len(e.wrote) >= fit /\ Len(e.wrote) <= room, "bytes written before the end")
     \cup V("C16", ~e.bad /\ e.back = SubSeq(e.vals, 1, fit), "values read before the end")
     \cup V("C18", \A j \in 1..Len(e.fields) : (e.fields[j].w \/ e.fields[j].wsaid > 0) /\ (e.fields[j].r \/ e.fields[j].rsaid > 0), "number missing without a diagnostic")
     \cup V("C18", \A j \in 1..Len(e.fields) : upto(j) > e.limit \/ (e.fields[j].wsaid = 0 /\ e.fields[j].rsaid = 0), "diagnostic about a number that is there")

(* a stream that cannot tell its position is at the end of what was read from it so far; -1: not known any more *)
FromOf(e) == IF e.from >= 0 THEN e.from ELSE st.at[e.s]
JudgeReadc(e) ==
  IF FromOf(e) = -1 THEN {}
  ELSE
  LET content == st.streams[e.s]
      from == FromOf(e)
      b == SubSeq(content, from + 1, Len(content))
      d == RdChunk(b, 0, e.scope, RegOf(e.r))
      sh(rd) == [j \in 1..Len(rd) |-> <<rd[j][1], rd[j][2], IF rd[j][3] = -1 THEN -1 ELSE rd[j][3] - from>>]
      e2 == [e EXCEPT !.rd = sh(@)]
  IN JudgeReadOf(e2, b, e.whole, e.scope, "stream", FALSE, -1, IF e.to = -1 THEN -1 ELSE e.to - from)
     \cup V("C22", ~d.ok \/ (e.ok /\ Plain(TreeOf(e.nodes)) = d.node), "chunk of the stream read wrongly")
(* where the next chunk is expected *)
After(e) ==
  IF e.to >= 0 THEN e.to
  ELSE IF FromOf(e) = -1 THEN -1
  ELSE LET d == RdChunk(st.streams[e.s], FromOf(e), e.scope, RegOf(e.r)) IN IF d.ok /\ ~d.anom /\ ~e.whole THEN d.p ELSE -1
Overwritten(content, from, bytes) ==
  SubSeq(content, 1, from) \o bytes \o SubSeq(content, from + Len(bytes) + 1, Len(content))

(* Groups with 65536 equal members and 9 others behind them (harness/wide.c), described by runs of equal items *)
WN == <<65536, 9>>
WBODY == <<66, 79, 68, 89>>
WLAST == <<76, 65, 83, 84>>
WTEST == <<84, 69, 83, 84>>
WWIDE == <<87, 73, 68, 69>>
WMember(kind, last) ==
  CASE kind \in {"form", "prop"} -> RawNode(IF last THEN WLAST ELSE WBODY, IF last THEN <<98>> ELSE <<97>>)
    [] kind = "props" -> MkProp(IF last THEN WLAST ELSE WTEST, <<>>)
    [] OTHER -> MkForm(IF last THEN WLAST ELSE WTEST, <<>>)
WGroup(kind, ms) ==
  CASE kind \in {"form", "nested"} -> MkForm(WWIDE, ms)
    [] kind = "prop" -> MkProp(WWIDE, ms)
    [] kind = "cat" -> MkCat(JJJJ, ms)
    [] kind = "list" -> MkList(JJJJ, <<>>, ms)
    [] kind = "props" -> MkList(JJJJ, ms, <<>>)
WSize(kind) == 4 + WN[1] * Len(Encode(WMember(kind, FALSE))) + WN[2] * Len(Encode(WMember(kind, TRUE)))
WOne(kind, last) == LET m == WMember(kind, last) IN m.id \o Bytes32(m.sz) \o (IF m.k = "raw" THEN m.data ELSE m.ty) \o <<1>>
WRuns(kind) == << [n |-> WN[1], x |-> WOne(kind, FALSE)], [n |-> WN[2], x |-> WOne(kind, TRUE)] >>
(* the text of a small group of this kind with the size of the large one, in pieces that end with an empty line *)
RECURSIVE WPieces(_, _)
WPieces(t, from) ==
  IF from > Len(t) THEN <<>>
  ELSE LET ends == {j \in from + 1..Len(t) : t[j] = 10 /\ t[j - 1] = 10}
           at == IF ends = {} THEN Len(t) ELSE Min(ends)
       IN <<SubSeq(t, from, at)>> \o WPieces(t, at + 1)
WPrinted(kind) ==
  LET a == WMember(kind, FALSE)
      b == WMember(kind, TRUE)
      ps == TLCEval(WPieces(Render([WGroup(kind, <<a, a, b>>) EXCEPT !.sz = WSize(kind)], 0), 1)) \* its head with the first a; a; b; its end
  IN << [n |-> 1, x |-> ps[1]], [n |-> WN[1] - 1, x |-> ps[2]], [n |-> WN[2], x |-> ps[3]], [n |-> 1, x |-> ps[4]] >>
WAll(f, n) == f.n = n /\ f.runs = <<[n |-> n, x |-> <<1>>]>>
(* a FORM with a payload of more than 2^24 bytes, and a small one *)
WBig == 16777219
WBigSize == 4 + 8 + WBig + 1 + Len(Encode(WMember("form", TRUE)))
WPayload == << [n |-> WBig - 3, x |-> <<97>>], [n |-> 3, x |-> <<98>>] >>
JudgeWideData(e) ==
  CASE e.stage = "read" -> V("C01", e.ok /\ e.sz = WBigSize /\ e.sz2 = WBig /\ e.runs = WPayload \o << [n |-> 1, x |-> <<45, 45>>], [n |-> 1, x |-> <<98>>] >>, "large payload read wrongly")
    [] e.stage = "write" -> V("C03", e.ok /\ e.len = 8 + WBigSize
                                       /\ e.runs = << [n |-> 1, x |-> FORM \o Bytes32(WBigSize) \o WWIDE \o WBODY \o Bytes32(WBig)] >> \o WPayload
                                                   \o << [n |-> 1, x |-> <<0>>], [n |-> 1, x |-> Encode(WMember("form", TRUE))] >>, "large payload written wrongly")
    [] e.stage = "check" -> V("C06", e.v, "verdict on a group with a large payload")
    [] e.stage = "cmp" -> V("C08", e.v /\ ~e.v2, "comparison of large payloads")
    [] e.stage = "update" -> V("C12", e.sz = WBigSize, "size of a group with a large payload")
JudgeWide(e) ==
  IF e.kind = "data" THEN JudgeWideData(e) ELSE
  LET k == e.kind
      a == WMember(k, FALSE)
      b == WMember(k, TRUE)
      few == WGroup(k, <<a, a, b>>)
      raw == a.k = "raw"
      spoiled == IF raw THEN [b EXCEPT !.id[1] = 1] ELSE [b EXCEPT !.ty = <<108, 97, 115, 116>>]
  IN CASE e.stage = "read" -> V("C01", e.ok /\ e.sz = WSize(k) /\ e.runs = WRuns(k), "group with many members read wrongly")
       [] e.stage = "write" -> V("C03", e.ok /\ e.len = 8 + WSize(k)
                                          /\ e.runs = << [n |-> 1, x |-> few.id \o Bytes32(WSize(k)) \o few.ty], [n |-> WN[1], x |-> Encode(a)], [n |-> WN[2], x |-> Encode(b)] >>,
                                 "group with many members written wrongly")
       [] e.stage = "check" -> V("C06", e.v = ChunkConforms(few) /\ e.v2 = ChunkConforms(WGroup(k, <<a, a, spoiled>>)), "verdict on a group with many members")
       [] e.stage = "cmp" -> V("C08", e.v /\ ~e.v2, "comparison of groups with many members")
       [] e.stage = "search" -> V("C09", WAll(e.a, WN[1]) /\ WAll(e.b, WN[2]) /\ WAll(e.all, WN[1] + WN[2]), "forms found among many")
       [] e.stage = "get" -> V("C10", WAll(e.one, 1) /\ (k # "form" \/ (WAll(e.a, WN[1]) /\ WAll(e.b, WN[2]))), "chunks looked up among many")
       [] e.stage = "add" -> V("C11", e.sz = WSize(k) /\ e.ty = few.ty /\ e.runs = WRuns(k), "group to which many members were added")
       [] e.stage = "track" -> V("C13", e.tya = FoldType(JJJJ, 1, <<a, a>>) /\ e.ty = FoldType(JJJJ, 1, <<a, a, b>>), "contents type after many members were added")
       [] e.stage = "update" -> V("C12", e.sz = WSize(k) + (IF raw THEN 0 ELSE 6), "size of a group with many members")
       [] e.stage = "print" -> V("C19", e.runs = WPrinted(k), "text of a group with many members")
       [] OTHER -> {}

JudgeEnd(e) == V("C17", st.odd \/ e.live = FoldFunction(LAMBDA a, b : a + b, 0, st.own), "ledger at the end")

(* reached when the process died: what the call was doing is a failure of these properties *)
CrashProps(what) ==
  CASE what \in {"read", "readc", "readfd"} -> {"C01", "C02", "C04", "C14", "C15", "C16", "C17", "C18", "C22", "C24"}
    [] what \in {"write", "writec", "writefd"} -> {"C03", "C04", "C05", "C14", "C15", "C16", "C17", "C22", "C23", "C24"}
    [] what \in {"check", "checkc"} -> {"C02", "C06", "C14", "C17", "C18", "C23"}
    [] what = "cmp" -> {"C04", "C08", "C14", "C17", "C23"}
    [] what = "search" -> {"C09", "C17", "C23"}
    [] what \in {"get", "getall", "getdata", "getp", "getprop"} -> {"C10", "C17", "C23"}
    [] what = "print" -> {"C14", "C17", "C19", "C23"}
    [] what = "free" -> {"C02", "C14", "C17"}
    [] what \in {"mk", "fill", "setraw", "settext", "poke"} -> {"C11", "C17"}
    [] what = "add" -> {"C11", "C13", "C17"}
    [] what = "update" -> {"C12"}
    [] what = "find" -> {"C14"}
    [] what \in {"chkid", "chkft"} -> {"C07"}
    [] what \in {"prim", "seq", "seqcut"} -> {"C16"}
    [] what = "iffjoin" -> {"C20"}
    [] what = "iffpp" -> {"C21"}
    [] what = "command" -> {"C25"}
    [] what = "wide-read" -> {"C01", "C02"}
    [] what = "wide-write" -> {"C03"}
    [] what = "wide-check" -> {"C06"}
    [] what = "wide-cmp" -> {"C08"}
    [] what = "wide-search" -> {"C09"}
    [] what = "wide-get" -> {"C10"}
    [] what = "wide-add" -> {"C11"}
    [] what = "wide-track" -> {"C13"}
    [] what = "wide-update" -> {"C12"}
    [] what = "wide-print" -> {"C19"}
    [] OTHER -> {"C17"}
JudgeCrash(e) == UNION {V(p, FALSE, "crash or hang") : p \in CrashProps(e.what)}

JudgeTool(e) ==
  CASE e.op = "iffjoin" -> UNION {V("C20", FALSE, m) : m \in JoinFaults(e)} \cup V("C20", TRUE, "")
    [] e.op = "command" -> UNION {V("C25", FALSE, m) : m \in CommandFaults(e)} \cup V("C25", TRUE, "")
    [] e.op = "iffpp"   -> UNION {V("C21", FALSE, m) : m \in PPFaults(e)} \cup V("C21", TRUE, "")

Judge(e) ==
  IF e.op = "crash" THEN JudgeCrash(e)
  ELSE IF e.op = "idsweep" THEN JudgeIdSweep(e)
  ELSE IF e.op = "wide" THEN JudgeWide(e)
  ELSE IF e.op \in {"iffjoin", "iffpp", "command"} THEN JudgeTool(e)
  ELSE IF st.off \/ e.op \in {"case", "reg", "errcb", "noref", "open", "seek", "poke", "detach"} THEN {}
  ELSE
  CASE e.op = "read" -> JudgeRead(e)
    [] e.op = "readc" -> JudgeReadc(e)
    [] e.op = "write" -> JudgeWrite(e)
    [] e.op = "writec" -> JudgeWritec(e)
    [] e.op = "mk" -> JudgeMk(e)
    [] e.op = "add" -> JudgeAdd(e)
    [] e.op = "payload" -> JudgePayload(e)
    [] e.op = "update" -> JudgeUpdate(e)
    [] e.op = "check" -> JudgeCheck(e)
    [] e.op = "cmp" -> JudgeCmp(e)
    [] e.op = "search" -> JudgeSearch(e)
    [] e.op = "get" -> JudgeGet(e)
    [] e.op = "print" -> JudgePrint(e)
    [] e.op = "free" -> JudgeFree(e)
    [] e.op = "find" -> JudgeFind(e)
    [] e.op = "idcheck" -> JudgeId(e)
    [] e.op = "prim" -> JudgePrim(e)
    [] e.op = "primcut" -> JudgePrimCut(e)
    [] e.op = "end" -> JudgeEnd(e)

---------------------------------------------------------------------------
(* The session                                                             *)

Fresh == [at |-> NoFn, regs |-> NoFn, cb |-> "capture", trees |-> NoFn, own |-> NoFn, from |-> NoFn, streams |-> NoFn,
          reads |-> <<>>, writes |-> <<>>, texts |-> <<>>, checks |-> <<>>, prints |-> <<>>, off |-> FALSE, odd |-> FALSE, name |-> ""]

(* the tree with root n is now this one, and its share of the ledger has grown *)
Adopt(s, n, nodes, dl) ==
  LET t == TreeOf(nodes)
  IN [s EXCEPT !.trees = Put(@, t.n, t), !.own = Put(@, t.n, dl + (IF t.n \in DOMAIN s.own THEN s.own[t.n] ELSE 0)), !.from = Drop(@, t.n)]

Text(s, key, e) == [s EXCEPT !.texts = IF "C18" \in Focus THEN Append(@, [key |-> key, h |-> SaidHash(e)]) ELSE @]

Apply(e) ==
  CASE e.op = "case" -> [Fresh EXCEPT !.name = e.name]
    [] st.off -> st
    [] e.op = "noref" -> [st EXCEPT !.off = TRUE]
    [] e.op = "crash" -> [st EXCEPT !.off = TRUE]
    [] e.op = "errcb" -> [st EXCEPT !.cb = e.cb]
    [] e.op = "reg" -> [st EXCEPT !.regs = Put(@, e.r, [forms |-> e.forms, glob |-> e.glob, def |-> e.def, kinds |-> e.kinds, lib |-> e.lib])]
    [] e.op = "open" -> [st EXCEPT !.streams = Put(@, e.s, e.content), !.at = Put(@, e.s, 0)]
    [] e.op = "writec" -> IF e.s \in DOMAIN st.streams /\ e.from <= Len(st.streams[e.s]) THEN [st EXCEPT !.streams = Put(@, e.s, Overwritten(@[e.s], e.from, e.bytes))] ELSE st
    [] e.op \in {"read", "readc"} ->
         LET s1 == IF e.ok THEN Adopt(st, e.root, e.nodes, e.dl) ELSE st
             s0 == IF e.op = "readc" THEN [s1 EXCEPT !.at = Put(@, e.s, After(e))] ELSE s1
             s2 == IF e.op = "read" /\ e.ok /\ ~e.chunkwise /\ ~e.hit THEN [s1 EXCEPT !.from = Put(@, e.root, e.content)] ELSE s0
             s3 == IF e.op = "read" /\ ~e.hit /\ e.mode \notin Unavailable
                   THEN [s2 EXCEPT !.reads = Append(@, [content |-> e.content, r |-> e.r, chunkwise |-> e.chunkwise, scope |-> e.scope, ok |-> e.ok,
                                                        v |-> IF e.ok THEN Plain(TreeOf(e.nodes)) ELSE <<>>])] ELSE s2
         IN IF e.op = "read" THEN Text(s3, ReadKey(e), e) ELSE s3
    [] e.op = "write" ->
         IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN st
         ELSE LET v == Plain(ChunkOf(e.n))
                  reg == RegOf(e.r)
              IN Text([st EXCEPT !.writes = Append(@, [v |-> v, r |-> e.r, scope |-> e.scope, ok |-> e.ok, bytes |-> e.bytes,
                                              clean |-> ~e.hit /\ ~e.flusherr /\ e.cap < 0,
                                              back |-> ~e.chunkwise /\ Regular(v, ZeroId, reg) /\ Canonical(v) /\ Separated(v)])],
                      [op |-> "write", n |-> v, r |-> e.r, mode |-> e.mode, as |-> e.as, cap |-> e.cap, fail |-> e.fail, oom |-> e.oom, hit |-> e.hit], e)
    [] e.op = "mk" -> IF e.n = 0 THEN st ELSE Adopt(st, e.n, e.nodes, e.dl)
    [] e.op \in {"add", "payload", "update", "poke"} ->
         LET s1 == IF e.op = "add" /\ e.c \in DOMAIN st.trees
                   THEN [st EXCEPT !.trees = Drop(@, e.c), !.own = Put(Drop(@, e.c), RootOf(e.p), st.own[e.c] + st.own[RootOf(e.p)]), !.from = Drop(@, e.c)] ELSE st
         IN Adopt(s1, 0, e.nodes, IF e.op = "poke" THEN 0 ELSE e.dl)
    [] e.op = "detach" -> Adopt(Adopt(st, 0, e.nodes, 0), 0, e.nodes2, 0)
    [] e.op = "check" ->
         IF ~Known(e.n) \/ ~Sound(ChunkOf(e.n)) THEN st
         ELSE LET v == Plain(ChunkOf(e.n))
              IN Text([st EXCEPT !.checks = Append(@, [v |-> v, r |-> e.r, cw |-> e.chunkwise, scope |-> e.scope, res |-> e.v])],
                      [op |-> "check", v |-> v, r |-> e.r, cw |-> e.chunkwise, scope |-> e.scope], e)
    [] e.op = "print" -> IF Known(e.n) /\ Sound(ChunkOf(e.n)) THEN [st EXCEPT !.prints = Append(@, [v |-> Plain(ChunkOf(e.n)), r |-> e.r, indent |-> e.indent, out |-> e.out])] ELSE st
    [] e.op = "free" -> [st EXCEPT !.odd = @ \/ (e.n \in DOMAIN st.trees /\ ~WellKinded(Plain(st.trees[e.n]), e.scope, RegOf(e.r))), !.trees = Drop(@, e.n), !.own = Drop(@, e.n), !.from = Drop(@, e.n)]
    [] OTHER -> st

Init == i = 1 /\ st = Fresh

Next ==
  /\ i <= Len(Log)
  /\ LET e == Log[i]
     IN /\ \A x \in Judge(e) : PrintT("REJECT|" \o x[1] \o "|" \o (IF e.op = "case" THEN e.name ELSE st.name) \o "|" \o ToString(i) \o "|" \o e.op \o "|" \o x[2])
        /\ st' = Apply(e)
  /\ i' = i + 1

Spec == Init /\ [][Next]_<<i, st>>

(* every event was judged *)
Complete == PrintT("JUDGED|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Len(Log)) \o "|" \o ToString(TLCGet(1)))
=============================================================================
