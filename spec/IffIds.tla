------------------------------- MODULE IffIds -------------------------------
(***************************************************************************)
(* Judging an identifier or a FORM type character by character, with an    *)
(* automaton that keeps the reserved words that still match.  Theorems:    *)
(* the automaton agrees with LegalId and LegalFormType (IffCore), and the  *)
(* classification of first halves with which the sweep over all 2^32       *)
(* identifiers is judged (JudgeIdSweep in IffTrace) is correct: C07.       *)
(***************************************************************************)
EXTENDS IffCore

CONSTANTS Chars, What \* What: "id" or "type"

VARIABLES word, fine, words
vars == <<word, fine, words>>

Table == {<<76,73,83,84>>, <<70,79,82,77>>, <<80,82,79,80>>, <<67,65,84,32>>, <<74,74,74,74>>}
         \cup {w \o <<48 + d>> : w \in {<<76,73,83>>, <<70,79,82>>, <<67,65,84>>}, d \in 1..9}

Init == word = <<>> /\ fine = TRUE /\ words = Table

(* a character in its position *)
CharFine(c) ==
  IF word = <<>> THEN c > 32 /\ c < 127 ELSE c >= 32 /\ c < 127
TypeChar(c) == c # 46 /\ (c < 97 \/ c > 122)

Take(c) ==
  /\ Len(word) < 4
  /\ fine' = (fine /\ CharFine(c) /\ (What = "id" \/ TypeChar(c)))
  /\ words' = {w \in words : w[Len(word) + 1] = c}
  /\ word' = Append(word, c)
Next == \E c \in Chars : Take(c)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Over == Len(word) = 4
Verdict == fine /\ (What = "id" \/ words = {})
Right == Over => Verdict = (IF What = "id" THEN LegalId(word) ELSE LegalFormType(word))
(* as soon as a character is wrong the outcome is settled *)
Settled == [][~fine => ~fine']_vars
(* the classification of first halves *)
OkChar(c) == LegalChar(c) /\ (What = "id" \/ (~(c >= 97 /\ c <= 122) /\ c # 46))
Special == What # "id" /\ \E r \in Reserved : word[1] = r[1] /\ word[2] = r[2]
StartOk == OkChar(word[1]) /\ word[1] # 32 /\ OkChar(word[2])
Generic ==
  Over => CASE ~StartOk -> ~Verdict
            [] StartOk /\ ~Special -> Verdict = (OkChar(word[3]) /\ OkChar(word[4]))
            [] OTHER -> TRUE
=============================================================================
