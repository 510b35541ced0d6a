----------------------------- MODULE IffWriter -----------------------------
(***************************************************************************)
(* Writing as a state machine: one action per primitive output operation,  *)
(* with a stack of chunks being written, a buffer in front of the          *)
(* destination, and a destination that may fail at any operation after any *)
(* number of bytes, also when the buffer is flushed or closed at the end.  *)
(* Two attempts are made: whatever happened to the first, the second one   *)
(* meets a working destination.                                            *)
(*                                                                         *)
(* Theorems: a successful attempt has stored exactly the encoding; an      *)
(* attempt succeeds exactly if no operation failed; what was stored before *)
(* a failure is a prefix of the encoding; every body has the declared size *)
(* (C03, C05, C15, C22).                                                   *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANT BufCaps  \* capacities of the buffer: 0 means that every operation is passed on

VARIABLES frames,  \* chunks being written, outermost first
          cap, buf, dest,
          broken,  \* an operation failed during this attempt
          attempt, status, stored \* stored: what the first attempt left at the destination

wvars == <<frames, cap, buf, dest, broken, attempt, status, stored>>
vars == <<growing, wvars>>

Frame(c) == [c |-> c, pc |-> "id", i |-> 1, bp |-> 0, start |-> -1]
Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
SetTop(f) == Append(Below, f)
Subs(c) == c.props \o c.kids

Init == /\ GrowInit
        /\ frames = <<>> /\ cap = 0 /\ buf = <<>> /\ dest = <<>> /\ broken = FALSE /\ attempt = 0 /\ status = "none" /\ stored = <<>>

Begin ==
  /\ Grown /\ status = "none"
  /\ cap' \in BufCaps
  /\ frames' = <<Frame(Tree)>> /\ status' = "run" /\ attempt' = 1
  /\ UNCHANGED <<growing, buf, dest, broken, stored>>

(* hand b over to the destination; it may fail after some of the bytes, in the first attempt *)
Store(b) ==
  \/ /\ dest' = dest \o b /\ buf' = <<>> /\ UNCHANGED <<broken, status>>
  \/ /\ attempt = 1
     /\ \E n \in {0, Len(b) \div 2, Len(b) - 1} : n >= 0 /\ dest' = dest \o SubSeq(b, 1, n)
     /\ buf' = <<>> /\ broken' = TRUE /\ status' = "fail"

(* one output operation with the bytes b, after which the innermost chunk is at f *)
Out(b, f) ==
  /\ frames' = SetTop(f)
  /\ IF Len(buf) + Len(b) > cap THEN Store(buf \o b)
     ELSE buf' = buf \o b /\ UNCHANGED <<dest, broken, status>>
  /\ UNCHANGED <<growing, cap, attempt, stored>>

Silent(fs) == frames' = fs /\ UNCHANGED <<growing, cap, buf, dest, broken, attempt, status, stored>>

Running == status = "run" /\ frames # <<>>
Position == Len(dest) + Len(buf)

WriteId == Running /\ Top.pc = "id" /\ Out(Top.c.id, [Top EXCEPT !.pc = "size"])
WriteSize ==
  /\ Running /\ Top.pc = "size"
  /\ Out(Bytes32(Top.c.sz), [Top EXCEPT !.start = Position + 4,
         !.pc = CASE Top.c.k = "raw" -> "data" [] Top.c.k \in GroupKinds -> "type" [] OTHER -> "field"])
WriteData == Running /\ Top.pc = "data" /\ Out(Top.c.data, [Top EXCEPT !.pc = "fill", !.bp = Len(Top.c.data)])
WriteType ==
  /\ Running /\ Top.pc = "type"
  /\ IF Fits(0, 4, Top.c.sz) THEN Out(Top.c.ty, [Top EXCEPT !.pc = "sub", !.bp = 4]) ELSE Silent(SetTop([Top EXCEPT !.pc = "fill"]))
WriteSub ==
  /\ Running /\ Top.pc = "sub"
  /\ IF Top.i <= Len(Subs(Top.c)) THEN Silent(Append(frames, Frame(Subs(Top.c)[Top.i]))) ELSE Silent(SetTop([Top EXCEPT !.pc = "fill"]))
WriteField ==
  /\ Running /\ Top.pc = "field"
  /\ LET L == Layouts[Top.c.k]
     IN IF IF Top.i > Len(L) THEN FALSE ELSE Fits(Top.bp, FieldSize(L[Top.i]), Top.c.sz)
        THEN Out(Top.c.ext[Top.i], [Top EXCEPT !.i = @ + 1, !.bp = @ + FieldSize(L[Top.i])])
        ELSE Silent(SetTop([Top EXCEPT !.pc = "fill"]))
WriteFiller == Running /\ Top.pc = "fill" /\ Top.bp < Top.c.sz /\ Out(<<0>>, [Top EXCEPT !.bp = @ + 1])
FillerDone == Running /\ Top.pc = "fill" /\ Top.bp >= Top.c.sz /\ Silent(SetTop([Top EXCEPT !.pc = "pad"]))
WritePad ==
  /\ Running /\ Top.pc = "pad"
  /\ IF PadLen(Top.c.sz) = 1 THEN Out(<<0>>, [Top EXCEPT !.pc = "done"]) ELSE Silent(SetTop([Top EXCEPT !.pc = "done"]))
Pop ==
  /\ Running /\ Top.pc = "done"
  /\ IF Below = <<>> THEN Silent(<<>>)
     ELSE LET g == Below[Len(Below)]
          IN Silent(Append(SubSeq(Below, 1, Len(Below) - 1), [g EXCEPT !.i = @ + 1, !.bp = Add32(@, Space(Top.c.sz))]))

(* flushing and closing at the end; both may fail *)
Flush ==
  /\ status = "run" /\ frames = <<>>
  /\ IF buf # <<>> THEN Store(buf) /\ UNCHANGED <<growing, frames, cap, attempt, stored>>
     ELSE /\ \/ status' = "ok" /\ UNCHANGED broken
             \/ attempt = 1 /\ status' = "fail" /\ broken' = TRUE
          /\ UNCHANGED <<growing, frames, cap, buf, dest, attempt, stored>>

Again ==
  /\ status \in {"ok", "fail"} /\ attempt = 1
  /\ attempt' = 2 /\ stored' = dest /\ dest' = <<>> /\ buf' = <<>> /\ broken' = FALSE
  /\ frames' = <<Frame(Tree)>> /\ status' = "run"
  /\ UNCHANGED <<growing, cap>>

Write == WriteId \/ WriteSize \/ WriteData \/ WriteType \/ WriteSub \/ WriteField \/ WriteFiller \/ FillerDone \/ WritePad \/ Pop \/ Flush \/ Again
Next == (Grow /\ UNCHANGED wvars) \/ Begin \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Write)

---------------------------------------------------------------------------
Ended == status \in {"ok", "fail"}
Enc == Encode(Tree)

StoresEncoding == status = "ok" => dest = Enc                           \* C03, C05
FailsIfBroken == Ended => ((status = "fail") = broken)                   \* C05
StoresPrefix == status # "none" => IsPrefix(dest \o (IF status = "fail" THEN <<>> ELSE buf), Enc) \* C05
WritesAgain == (attempt = 2 /\ Ended) => status = "ok"                   \* C05
(* C15, C22: a chunk is left exactly at the end of its body and padding byte *)
BodyExact ==
  (Running /\ Top.pc = "done" /\ Top.start >= 0) =>
     LET body == IF Top.bp > Top.c.sz THEN Top.bp ELSE Top.c.sz \* sub chunks of a group that is declared too small
     IN Position = Top.start + body + PadLen(Top.c.sz)
Ends == (status = "run") ~> Ended
=============================================================================
