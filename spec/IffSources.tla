----------------------------- MODULE IffSources ----------------------------
(***************************************************************************)
(* Reading from sources of different kinds (C24): a file by name, a handle *)
(* the caller has opened, and standard input.  The source delivers its     *)
(* bytes into a buffer in pieces of any size, until it ends or fails; the  *)
(* library takes them out one by one, as many as the chunk needs, and then *)
(* one more to see whether anything follows.  A name may also be that of   *)
(* nothing, or of a directory.                                             *)
(*                                                                         *)
(* Theorems: the outcome depends on the bytes only (and on whether an      *)
(* error comes before the last one that is needed), not on the kind of     *)
(* source, the buffer or the sizes of the pieces; not a byte more is taken *)
(* than the chunk and the one behind it; what was opened by name is closed *)
(* again whatever happens, and the handles of the caller remain open.      *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANTS Kinds, Tails, Caps, Patterns, ErrAts, Reg

VARIABLES kind, content, cap, pattern, errat, \* the scenario
          under,   \* bytes delivered
          turn,    \* number of deliveries
          buf, got,
          phase,   \* "none", "open", "read", "trail", "close", "over"
          ended,   \* "no", "eof", "error": what the source said last
          opened,  \* handles open: "user", "lib"
          result, warned

svars == <<kind, content, cap, pattern, errat, under, turn, buf, got, phase, ended, opened, result, warned>>
vars == <<growing, svars>>
scenario == <<growing, kind, content, cap, pattern, errat>>

None == [ok |-> FALSE]
NoNames == {"missing", "dir"}

Init == /\ GrowInit /\ kind = "" /\ content = <<>> /\ cap = 1 /\ pattern = <<1>> /\ errat = -1 /\ under = 0 /\ turn = 0
        /\ buf = <<>> /\ got = <<>> /\ phase = "none" /\ ended = "no" /\ opened = {} /\ result = None /\ warned = FALSE

(* a tail: bytes behind the chunk, or (negative) how many are missing at its end *)
Tailed(b, t) == IF t > 0 THEN b \o [j \in 1..t |-> 65 + j] ELSE IF -t > Len(b) THEN <<>> ELSE SubSeq(b, 1, Len(b) + t)
Begin ==
  /\ Grown /\ phase = "none"
  /\ kind' \in Kinds /\ cap' \in Caps /\ pattern' \in Patterns
  /\ \E t \in Tails : content' = Tailed(Encode(Tree), t)
  /\ \E e \in ErrAts : errat' = IF e < 0 THEN -1 ELSE IF e > Len(content') THEN Len(content') ELSE e
  /\ opened' = IF kind' \in NoNames \cup {"name"} THEN {} ELSE {"user"}
  /\ phase' = "open"
  /\ UNCHANGED <<growing, under, turn, buf, got, ended, result, warned>>

Open_ ==
  /\ phase = "open"
  /\ IF kind \in NoNames THEN phase' = "over" /\ warned' = TRUE /\ UNCHANGED opened
     ELSE phase' = "read" /\ opened' = opened \cup (IF kind = "name" THEN {"lib"} ELSE {}) /\ UNCHANGED warned
  /\ UNCHANGED <<scenario, under, turn, buf, got, ended, result>>

Meaning(b) == RdChunk(b, 0, ZeroId, Reg)
Wants == \/ phase = "read" /\ ~Meaning(got).ok
         \/ phase = "trail" /\ Len(got) = Meaning(got).p

(* the source fills the buffer when it is empty and a byte is wanted *)
Least(S) == Min(S)
Deliver ==
  /\ Wants /\ buf = <<>> /\ ended = "no"
  /\ LET n == Least({pattern[1 + (turn % Len(pattern))], cap, Len(content) - under} \cup (IF errat >= 0 THEN {errat - under} ELSE {}))
     IN IF errat >= 0 /\ under = errat THEN ended' = "error" /\ UNCHANGED <<under, buf>>
        ELSE IF under = Len(content) THEN ended' = "eof" /\ UNCHANGED <<under, buf>>
        ELSE buf' = SubSeq(content, under + 1, under + n) /\ under' = under + n /\ UNCHANGED ended
  /\ turn' = turn + 1
  /\ UNCHANGED <<scenario, got, phase, opened, result, warned>>

Take ==
  /\ Wants /\ buf # <<>>
  /\ got' = Append(got, Head(buf)) /\ buf' = Tail(buf)
  /\ UNCHANGED <<scenario, under, turn, phase, ended, opened, result, warned>>

ChunkDone ==
  /\ phase = "read" /\ Meaning(got).ok
  /\ result' = [ok |-> TRUE, node |-> Meaning(got).node] /\ warned' = (warned \/ Meaning(got).warn) /\ phase' = "trail"
  /\ UNCHANGED <<scenario, under, turn, buf, got, ended, opened>>
ChunkFails ==
  /\ phase = "read" /\ Wants /\ buf = <<>> /\ ended # "no"
  /\ warned' = TRUE /\ phase' = "close"
  /\ UNCHANGED <<scenario, under, turn, buf, got, ended, opened, result>>
TrailDone ==
  /\ phase = "trail" /\ (~Wants \/ (buf = <<>> /\ ended # "no"))
  /\ warned' = (warned \/ ~Wants) /\ phase' = "close"
  /\ UNCHANGED <<scenario, under, turn, buf, got, ended, opened, result>>
Close_ ==
  /\ phase = "close"
  /\ opened' = opened \ {"lib"} /\ phase' = "over"
  /\ UNCHANGED <<scenario, under, turn, buf, got, ended, result, warned>>

Read_ == Open_ \/ Deliver \/ Take \/ ChunkDone \/ ChunkFails \/ TrailDone \/ Close_
Next == (Grow /\ UNCHANGED svars) \/ Begin \/ Read_
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Read_)

---------------------------------------------------------------------------
Over == phase = "over"

(* what the bytes alone say *)
Available == IF errat >= 0 THEN SubSeq(content, 1, errat) ELSE content
Expected == LET d == Meaning(Available)
            IN IF kind \in NoNames \/ ~d.ok THEN None ELSE [ok |-> TRUE, node |-> d.node]
BytesDecide == Over => result = Expected                                                    \* C24, C01, C02
ReportsRight ==                                                                             \* C18
  Over => LET d == Meaning(Available) IN warned = (kind \in NoNames \/ ~d.ok \/ d.warn \/ Len(Available) > d.p)
TakenRight == Over => \/ ~result.ok                                                         \* C22
                      \/ Len(got) = Meaning(got).p /\ Len(Available) = Len(got)
                      \/ Len(got) = Meaning(got).p + 1
InOrder == got \o buf = SubSeq(content, 1, under)
ClosedAgain == Over => opened = (IF kind \in NoNames \cup {"name"} THEN {} ELSE {"user"})   \* C17
Ends == (phase = "open") ~> Over
=============================================================================
