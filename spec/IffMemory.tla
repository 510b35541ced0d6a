----------------------------- MODULE IffMemory -----------------------------
(***************************************************************************)
(* Reading when memory is scarce.  A chunk is made of one or more blocks   *)
(* that are allocated one after the other when its header has been read;   *)
(* the environment decides how many blocks there are before an allocation  *)
(* fails.  A chunk of which only a part could be allocated gives that part *)
(* back, and reading fails like for a stream that ends there; afterwards a *)
(* hierarchy that was read is freed by its owner.                          *)
(*                                                                         *)
(* Theorems: nothing remains allocated when reading has failed, exactly    *)
(* the blocks of the result when it has succeeded, nothing after freeing;  *)
(* reading succeeds exactly if the stream holds a chunk and no allocation  *)
(* failed; and no block is released twice.                                 *)
(***************************************************************************)
EXTENDS IffReader

CONSTANTS Supplies  \* numbers of blocks that may be available

VARIABLES blocks,   \* <<chunk, part>>
          supply,   \* blocks that are still available
          taken,    \* allocations attempted
          starved,  \* an allocation failed
          freeing,  \* chunks of the result still to be released, after it was read
          twice     \* a block was released that was not allocated

mvars == <<vars, blocks, supply, taken, starved, freeing, twice>>

Parts(k) == IF k \in GroupKinds THEN 1 ELSE 2 \* a data chunk: itself, and its payload or what its handler keeps
BlocksOf(n, k) == {<<n, j>> : j \in 1..Parts(k)}

MInit == /\ Init /\ blocks = {} /\ supply \in Supplies /\ taken = 0 /\ starved = FALSE /\ freeing = <<>> /\ twice = FALSE

NewChunk == stack' # stack /\ next' = next + 1
MHeader ==
  /\ Header
  /\ IF status' = "unwind" THEN UNCHANGED <<blocks, supply, taken>>
     ELSE LET k == stack'[Len(stack')].node.k
          IN /\ supply >= Parts(k)
             /\ supply' = supply - Parts(k) /\ taken' = taken + Parts(k) /\ blocks' = blocks \cup BlocksOf(next, k)
  /\ UNCHANGED <<starved, freeing, twice>>

(* a chunk of which not every block can be had: the others are released at once; its handlers are never called *)
NoMemory ==
  /\ WantsHeader /\ Room(8)
  /\ \E id \in ChunkIds, sz \in Sizes :
       LET k == Reg.kinds[Find(Reg, HeaderScope, id)]
       IN /\ sz >= 0 /\ supply < Parts(k)
          /\ input' = input \o id \o Bytes32(sz)
          /\ taken' = taken + supply + 1
  /\ status' = "unwind" /\ starved' = TRUE
  /\ UNCHANGED <<stack, live, next, result, warn, ev, blocks, supply, freeing, twice>>

Release(ns) == {b \in blocks : b[1] \in ns}
MUnwind ==
  /\ Unwind
  /\ blocks' = blocks \ Release(IdsOf(Top)) /\ twice' = (twice \/ \E n \in IdsOf(Top) : Release({n}) = {})
  /\ UNCHANGED <<supply, taken, starved, freeing>>

(* the result is freed from the leaves to the root *)
RECURSIVE PostOrder(_)
PostOrder(t) == Flatten([j \in 1..Len(t.props) |-> PostOrder(t.props[j])]) \o Flatten([j \in 1..Len(t.kids) |-> PostOrder(t.kids[j])]) \o <<t.n>>
MFree ==
  /\ status = "ok" /\ freeing = <<>>
  /\ status' = "freeing" /\ freeing' = PostOrder(result)
  /\ UNCHANGED <<input, stack, live, next, result, warn, ev, blocks, supply, taken, starved, twice>>
MFreeOne ==
  /\ status = "freeing" /\ freeing # <<>>
  /\ live' = live \ {freeing[1]} /\ twice' = (twice \/ Release({freeing[1]}) = {})
  /\ blocks' = blocks \ Release({freeing[1]}) /\ freeing' = Tail(freeing)
  /\ status' = IF Len(freeing) = 1 THEN "freed" ELSE "freeing"
  /\ UNCHANGED <<input, stack, next, result, warn, ev, supply, taken, starved>>

Others == Type \/ DataByte \/ Field \/ SkipByte \/ DataDone \/ SubsDone \/ FieldsDone \/ SkipDone \/ Pad \/ NoPad \/ End \/ Failed
MNext == MHeader \/ NoMemory \/ MUnwind \/ MFree \/ MFreeOne \/ (Others /\ UNCHANGED <<blocks, supply, taken, starved, freeing, twice>>)
MSpec == MInit /\ [][MNext]_mvars

---------------------------------------------------------------------------
Owners == {b[1] : b \in blocks}

(* C17: what is allocated belongs to live chunks, completely *)
BlocksOwned == Owners = live
BlocksComplete == \A b \in blocks : <<b[1], 1>> \in blocks
(* C02, C17: failing, of whatever cause, leaves nothing; succeeding leaves the result; freeing it leaves nothing *)
AllReleased == (status \in {"fail", "freed"} => blocks = {}) /\ (status = "ok" => Owners = Ids(result))
NeverTwice == ~twice
(* scarcity is noticed, and nothing else than scarcity or the stream makes reading fail *)
ScarcityFails == (starved => status \in {"unwind", "fail"}) /\ (status = "fail" /\ ~starved => ~Meaning.ok)
(* C01, C17: until it is released, every live chunk has exactly one owner, and what was read is linked *)
OwnedUntilFreed == status \in {"run", "ok", "unwind", "fail"} => OneOwner /\ LinksRight
(* of the handlers only those of chunks that exist were called *)
HandlersOfExisting == status = "fail" /\ starved => IsPrefix(ev, Meaning.ev)

=============================================================================
