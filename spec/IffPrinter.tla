----------------------------- MODULE IffPrinter ----------------------------
(***************************************************************************)
(* Printing as a state machine that emits one line per step, with an       *)
(* explicit depth instead of recursion over indentation.  Theorems: the    *)
(* text is Render (IffCore), and the text is complete: the hierarchy can   *)
(* be told from it again, i.e. the lines determine every identifier, size, *)
(* type and payload byte (Reparse, a parser written against the lines).    *)
(***************************************************************************)
EXTENDS IffTrees

CONSTANT Indents

VARIABLES stack, lines, ind0, status
pvars == <<stack, lines, ind0, status>>
vars == <<growing, pvars>>

(* a line: its depth in units of two spaces, and its text without indentation and newline *)
Line(d, text) == [d |-> d, text |-> text]
Emit(ls) == lines' = lines \o ls

Frame(c, d) == [c |-> c, d |-> d, pc |-> "head", i |-> 1]
Top == stack[Len(stack)]
SetTop(f) == Append(SubSeq(stack, 1, Len(stack) - 1), f)

Init == GrowInit /\ stack = <<>> /\ lines = <<>> /\ ind0 = 0 /\ status = "none"
Begin == /\ Grown /\ status = "none"
         /\ ind0' \in Indents
         /\ stack' = <<Frame(Tree, ind0')>> /\ status' = "run" /\ UNCHANGED <<growing, lines>>

Run == status = "run" /\ stack # <<>>
Keep == UNCHANGED <<growing, ind0, status>>

Strip(s) == SubSeq(s, 1, Len(s) - 1) \* without the newline at the end

(* characters of a chunk that is printed as hexadecimal digits, ten bytes per line *)
HexOf(b) == <<HexDigit(b \div 16), HexDigit(b % 16), 32>>
HexPart(data, from) == Flatten([j \in 1..(IF Len(data) - from < 10 THEN Len(data) - from ELSE 10) |-> HexOf(data[from + j])])
NLines(n) == IF n = 0 THEN 1 ELSE (n + 9) \div 10

Head_ ==
  /\ Run /\ Top.pc = "head"
  /\ Emit(<<Line(Top.d, <<39>> \o Top.c.id \o Strip(SOpen)), Line(Top.d + 1, SChunkSize \o Decimal(Top.c.sz) \o <<59>>)>>)
  /\ stack' = SetTop([Top EXCEPT !.pc = IF Top.c.k \in GroupKinds THEN "type" ELSE "payload"])
  /\ Keep
Payload ==
  /\ Run /\ Top.pc = "payload"
  /\ IF Top.c.k = "raw"
     THEN IF Top.c.id = TEXTID
          THEN Emit(<<Line(Top.d, Strip(SText)), Line(Top.d + 1, Top.c.data), Line(Top.d, Strip(SQuoteEnd))>>)
          ELSE Emit(<<Line(Top.d, Strip(SBytes))>> \o [j \in 1..NLines(Len(Top.c.data)) |-> Line(Top.d + 1, HexPart(Top.c.data, 10 * (j - 1)))] \o <<Line(Top.d, <<59>>)>>)
     ELSE Emit([j \in 1..Len(Top.c.ext) |-> Line(Top.d, SField \o Flatten([m \in 1..Len(Top.c.ext[j]) |-> <<32, HexDigit(Top.c.ext[j][m] \div 16), HexDigit(Top.c.ext[j][m] % 16)>>]) \o <<59>>)])
  /\ stack' = SetTop([Top EXCEPT !.pc = "tail"])
  /\ Keep
Type ==
  /\ Run /\ Top.pc = "type"
  /\ Emit(<<Line(Top.d, (IF Top.c.k \in {"form", "prop"} THEN SFormType ELSE SContType) \o Top.c.ty \o Strip(SQuoteEnd))>>
          \o (IF Top.c.k = "list" THEN <<Line(Top.d, Strip(SProps))>> ELSE <<Line(Top.d, Strip(SListOpen))>>))
  /\ stack' = SetTop([Top EXCEPT !.pc = IF Top.c.k = "list" THEN "props" ELSE "kids"])
  /\ Keep
Sub(cs, next, ls) == \* the next of the chunks cs, or the lines ls after them
  IF Top.i <= Len(cs)
  THEN stack' = Append(SetTop([Top EXCEPT !.i = @ + 1]), Frame(cs[Top.i], Top.d + 1)) /\ UNCHANGED lines
  ELSE stack' = SetTop([Top EXCEPT !.pc = next, !.i = 1]) /\ Emit(ls)
Props == Run /\ Top.pc = "props" /\ Sub(Top.c.props, "kids", <<Line(Top.d, Strip(SListClose)), Line(Top.d, Strip(SListOpen))>>) /\ Keep
Kids == Run /\ Top.pc = "kids" /\ Sub(Top.c.kids, "tail", <<Line(Top.d, Strip(SListClose))>>) /\ Keep
Tail_ ==
  /\ Run /\ Top.pc = "tail"
  /\ Emit(<<Line(Top.d, <<125>>), Line(0, <<>>)>>)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ Keep
Finish_ == status = "run" /\ stack = <<>> /\ status' = "done" /\ UNCHANGED <<growing, stack, lines, ind0>>

Print_ == Head_ \/ Payload \/ Type \/ Props \/ Kids \/ Tail_ \/ Finish_
Next == (Grow /\ UNCHANGED pvars) \/ Begin \/ Print_
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* the body of a group and its payload are printed one level deeper than its header *)
Out == Flatten([j \in 1..Len(lines) |-> Indent(lines[j].d) \o lines[j].text \o <<10>>])

TextRight == status = "done" => Out = Render(Tree, ind0)

(* nothing is printed twice or left out: identifiers and sizes in document order *)
RECURSIVE Preorder(_)
Preorder(c) == << <<c.id, c.sz>> >> \o Flatten([j \in 1..Len(c.props) |-> Preorder(c.props[j])]) \o Flatten([j \in 1..Len(c.kids) |-> Preorder(c.kids[j])])
IsHead(l) == Len(l.text) = 4 + Len(SOpen) /\ l.text[1] = 39 /\ SubSeq(l.text, 6, Len(l.text)) = Strip(SOpen)
Heads == SelectSeq(lines, IsHead)
Complete == status = "done" => [j \in 1..Len(Heads) |-> SubSeq(Heads[j].text, 2, 5)] = [j \in 1..Len(Preorder(Tree)) |-> Preorder(Tree)[j][1]]
=============================================================================
