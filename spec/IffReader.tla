----------------------------- MODULE IffReader -----------------------------
(***************************************************************************)
(* Reading as a state machine: one action per primitive read, with a stack *)
(* of chunks under construction and the set of live objects.  The bytes of *)
(* the stream are not fixed beforehand: whatever is read next is chosen by *)
(* the environment, which may also end the stream or fail at any byte.     *)
(* Thus all streams within the bounds are covered, together with every     *)
(* point of truncation.                                                    *)
(*                                                                         *)
(* The theorems of interest (invariants below): the machine computes       *)
(* Decode; it fails exactly if the bytes supplied before the end of the    *)
(* stream do not make up a chunk; it consumes exactly the bytes of the     *)
(* chunk; at failure nothing remains allocated; every sub chunk is linked  *)
(* to its group and is owned by exactly one place; fields are read only    *)
(* within their chunk; and it stops.                                       *)
(***************************************************************************)
EXTENDS IffForest

CONSTANTS ChunkIds, Sizes, Types, Bytes, FieldBytes, Pads, MaxLen, Reg, Scope

VARIABLES input,   \* the bytes consumed so far
          stack,   \* chunks under construction, outermost first
          live,    \* numbers of the chunks that are allocated
          next,    \* number of the next chunk
          status,  \* "run", "unwind", "ok", "fail"
          result,  \* the tree that was read
          warn,    \* something was reported
          ev       \* handlers called: <<slot, identifier, position of the body>>

vars == <<input, stack, live, next, status, result, warn, ev>>

(* a chunk under construction: its node so far, bytes of the body processed, fields read, and what comes next *)
IdsOf(frame) == Ids(frame.node)
Frame(node, bp, pc) == [node |-> node, bp |-> bp, pc |-> pc]

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == Append(Below, f)
Room(n) == Len(input) + n <= MaxLen
NoResult == TNode(0, 0, ZeroId, "bad", 0, ZeroId, <<>>, <<>>, <<>>, <<>>)

Init == /\ input = <<>> /\ stack = <<>> /\ live = {} /\ next = 1
        /\ status = "run" /\ result = NoResult /\ warn = FALSE /\ ev = <<>>

WantsHeader == status = "run" /\ IF stack = <<>> THEN TRUE ELSE Top.pc = "sub" /\ Top.bp < Top.node.sz
HeaderScope == IF stack = <<>> THEN Scope ELSE Top.node.ty
WantsType == status = "run" /\ stack # <<>> /\ Top.pc = "type"
WantsData == status = "run" /\ stack # <<>> /\ Top.pc = "data"
FieldNo == Len(Top.node.ext) + 1
WantsField == status = "run" /\ stack # <<>> /\ Top.pc = "field"
              /\ FieldNo <= Len(Layouts[Top.node.k]) /\ Fits(Top.bp, FieldSize(Layouts[Top.node.k][FieldNo]), Top.node.sz)
WantsSkip == status = "run" /\ stack # <<>> /\ Top.pc = "skip" /\ Top.bp < Top.node.sz
WantsPad == status = "run" /\ stack # <<>> /\ Top.pc = "pad" /\ PadLen(Top.node.sz) = 1

(* the first thing to do with a new chunk of this kind *)
Start(k, sz) == CASE k = "raw" -> "data"
                  [] k \in GroupKinds -> IF sz < 4 THEN "skip" ELSE "type"
                  [] OTHER -> "field"

Header ==
  /\ WantsHeader /\ Room(8)
  /\ \E id \in ChunkIds, sz \in Sizes :
       LET slot == Find(Reg, HeaderScope, id)
           k    == Reg.kinds[slot]
       IN /\ input' = input \o id \o Bytes32(sz)
          /\ ev' = Append(ev, <<slot, id, Len(input) + 8>>)
          /\ IF sz < 0
             THEN status' = "unwind" /\ UNCHANGED <<stack, live, next>> \* no chunk has a negative size
             ELSE /\ stack' = Append(stack, Frame(TNode(next, 0, id, k, sz, ZeroId, <<>>, <<>>, <<>>, <<>>), 0, Start(k, sz)))
                  /\ live' = live \cup {next} /\ next' = next + 1
                  /\ UNCHANGED status
          /\ UNCHANGED <<result, warn>>

Type ==
  /\ WantsType /\ Room(4)
  /\ \E ty \in Types : /\ input' = input \o ty
                       /\ stack' = SetTop([Top EXCEPT !.node.ty = ty, !.bp = 4, !.pc = "sub"])
  /\ UNCHANGED <<live, next, status, result, warn, ev>>

(* the payload of a raw chunk, a byte at a time *)
DataByte ==
  /\ WantsData /\ Top.bp < Top.node.sz /\ Room(1)
  /\ \E b \in Bytes : /\ input' = Append(input, b)
                      /\ stack' = SetTop([Top EXCEPT !.node.data = Append(@, b), !.bp = @ + 1])
  /\ UNCHANGED <<live, next, status, result, warn, ev>>

Field ==
  /\ WantsField
  /\ LET fs == FieldSize(Layouts[Top.node.k][FieldNo])
     IN /\ Room(fs)
        /\ \E v \in FieldBytes[fs] : /\ input' = input \o v
                                     /\ stack' = SetTop([Top EXCEPT !.node.ext = Append(@, v), !.bp = @ + fs])
  /\ UNCHANGED <<live, next, status, result, warn, ev>>

SkipByte ==
  /\ WantsSkip /\ Room(1)
  /\ \E b \in Bytes : input' = Append(input, b)
  /\ stack' = SetTop([Top EXCEPT !.bp = @ + 1])
  /\ UNCHANGED <<live, next, status, result, warn, ev>>

(* steps that read nothing *)
Turn(pc) == stack' = SetTop([Top EXCEPT !.pc = pc]) /\ UNCHANGED <<input, live, next, status, result, warn, ev>>
DataDone == WantsData /\ Top.bp >= Top.node.sz /\ Turn("skip")
SubsDone == /\ status = "run" /\ stack # <<>> /\ Top.pc = "sub" /\ Top.bp >= Top.node.sz
            /\ stack' = SetTop([Top EXCEPT !.pc = "skip"]) /\ warn' = (warn \/ Top.bp > Top.node.sz)
            /\ UNCHANGED <<input, live, next, status, result, ev>>
FieldsDone == /\ status = "run" /\ stack # <<>> /\ Top.pc = "field" /\ ~WantsField
              /\ stack' = SetTop([Top EXCEPT !.pc = "skip", !.node.ext = @ \o SubSeq(Default(Top.node.k), Len(@) + 1, Len(Layouts[Top.node.k]))])
              /\ UNCHANGED <<input, live, next, status, result, warn, ev>>
SkipDone == status = "run" /\ stack # <<>> /\ Top.pc = "skip" /\ ~WantsSkip /\ Turn("pad")

(* the padding byte and the return of a complete chunk to its group, or to the caller *)
Complete(pad) ==
  LET c == Top.node
      parent == Below[Len(Below)]
      linked == [c EXCEPT !.par = parent.node.n]
  IN /\ IF Below = <<>>
        THEN stack' = <<>> /\ result' = c /\ status' = "ok"
        ELSE /\ stack' = Append(SubSeq(Below, 1, Len(Below) - 1),
                [parent EXCEPT !.bp = @ + Space(c.sz),
                               !.node.props = IF parent.node.k = "list" /\ c.id = PROPID THEN Append(@, linked) ELSE @,
                               !.node.kids = IF parent.node.k = "list" /\ c.id = PROPID THEN @ ELSE Append(@, linked)])
             /\ UNCHANGED <<result, status>>
     /\ input' = input \o pad
     /\ warn' = (warn \/ pad \notin {<<>>, <<0>>})
     /\ UNCHANGED <<live, next, ev>>
Pad == WantsPad /\ Room(1) /\ \E b \in Pads : Complete(<<b>>)
NoPad == status = "run" /\ stack # <<>> /\ Top.pc = "pad" /\ PadLen(Top.node.sz) = 0 /\ Complete(<<>>)

(* the stream ends, or fails, in the middle of what is wanted; some bytes of it may have arrived *)
Wanted == IF WantsHeader THEN 8 ELSE IF WantsType THEN 4
          ELSE IF WantsField THEN FieldSize(Layouts[Top.node.k][FieldNo]) ELSE 1
Wants == WantsHeader \/ WantsType \/ (WantsData /\ Top.bp < Top.node.sz) \/ WantsField \/ WantsSkip \/ WantsPad
End ==
  /\ Wants
  /\ \E n \in {0, 1, Wanted - 1} : n < Wanted /\ Room(n) /\ input' = input \o [j \in 1..n |-> 70]
  /\ status' = "unwind"
  /\ ev' = ev
  /\ UNCHANGED <<stack, live, next, result, warn>>

(* failing: what was built is released, innermost first *)
Unwind ==
  /\ status = "unwind" /\ stack # <<>>
  /\ live' = live \ IdsOf(Top)
  /\ stack' = Below
  /\ UNCHANGED <<input, next, status, result, warn, ev>>
Failed ==
  /\ status = "unwind" /\ stack = <<>>
  /\ status' = "fail"
  /\ UNCHANGED <<input, stack, live, next, result, warn, ev>>

Next == Header \/ Type \/ DataByte \/ Field \/ SkipByte \/ DataDone \/ SubsDone \/ FieldsDone \/ SkipDone \/ Pad \/ NoPad \/ End \/ Unwind \/ Failed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Done == status \in {"ok", "fail"}

Meaning == RdChunk(input, 0, Scope, Reg)

(* C01, C22: what was read is what is in the stream, and not a byte more was consumed *)
ReadsDecode ==
  status = "ok" => LET d == Meaning IN d.ok /\ d.node = Plain(result) /\ d.p = Len(input)
(* C02: an incomplete stream gives nothing *)
FailsOnlyIfIncomplete == status = "fail" => LET d == Meaning IN ~d.ok
(* C02, C17: and leaves nothing behind *)
NothingLeaked == (status = "fail" => live = {}) /\ (status = "ok" => live = Ids(result))
(* C01: parent links *)
LinksRight == status = "ok" => Linked(result, 0)
(* C14: handlers called, in order *)
HandlersRight == Done => ev = Meaning.ev
(* C18: what is peculiar was reported *)
WarningsRight == status = "ok" => warn = Meaning.warn
(* C17: every live chunk has exactly one owner: a chunk on the stack or a place in one of those *)
OneOwner ==
  LET owned == [j \in 1..Len(stack) |-> IdsOf(stack[j])]
  IN status # "ok" =>
       /\ live = UNION {owned[j] : j \in 1..Len(stack)}
       /\ \A j, m \in 1..Len(stack) : j # m => owned[j] \cap owned[m] = {}
(* C15: no field is read beyond the declared size *)
FieldsWithinChunk ==
  \A j \in 1..Len(stack) : stack[j].node.k \in ExtKinds => stack[j].bp <= stack[j].node.sz
(* C04: a conforming file with zero padding and the PROPs in front is the encoding of what was read from it *)
Reproduces ==
  (status = "ok" /\ Consistent(Plain(result)) /\ ~warn /\ Canonical(Plain(result))) =>
     LET e == Encode(Plain(result)) IN Len(e) = Len(input) /\ Decode(e, Reg).node = Plain(result)
(* C02: reading stops *)
Stops == <>Done

=============================================================================
