----------------------------- MODULE IffCommand ----------------------------
(***************************************************************************)
(* The reading of a command line (IffCommandLine) as a process.  Theorems: *)
(* a command line means the same as its plainest form, options mean the    *)
(* same before and behind a file name, no name is invented, and nothing    *)
(* that follows a request for help, the version or a word that makes no    *)
(* sense counts (C25).                                                     *)
(***************************************************************************)
EXTENDS IffCommandLine

CONSTANTS Tools, Vocabulary, MaxWords
VARIABLES tool, words, said
cvars == <<tool, words, said>>

CInit == tool \in Tools /\ words = <<>> /\ said = Said0
Word(w) == words' = Append(words, w) /\ said' = Read1(tool, said, w) /\ UNCHANGED tool
CNext == Len(words) < MaxWords /\ \E w \in Vocabulary : Word(w)
CSpec == CInit /\ [][CNext]_cvars

(* the same command line in its plainest form *)
Plainest(p) ==
  (IF p.output = <<>> THEN <<>> ELSE << <<Dash, 111>>, p.output[1] >>) \o (IF p.nocheck THEN << <<Dash, 99>> >> ELSE <<>>)
  \o << <<Dash, Dash>> >> \o p.names

Result == Concluded(said)
SameAsParse == Result = Parse(tool, words)
Normal == Result.end = "run" => Parse(tool, Plainest(Result)) = Result
(* what was said by the end of a command line that ended early stays said *)
EndIsFinal == [][said.end # "" => said' = said]_cvars
(* exchanging a file name and the option behind it changes nothing *)
IsName(st, w) == Len(w) < 2 \/ w[1] # Dash
Movable(j) ==
  LET st == FoldLeft(LAMBDA s, w : Read1(tool, s, w), Said0, SubSeq(words, 1, j - 1))
  IN st.end = "" /\ ~st.pending /\ ~st.plain /\ IsName(st, words[j]) /\ ~IsName(st, words[j + 1]) /\ words[j + 1] # <<Dash, Dash>>
     /\ ~Read1(tool, st, words[j + 1]).pending
Exchanged(j) == [words EXCEPT ![j] = words[j + 1], ![j + 1] = words[j]]
SameSaid(a, b) == a.end = b.end /\ (a.end = "run" => a = b)
OptionsAnywhere == \A j \in 1..(Len(words) - 1) : Movable(j) => SameSaid(Parse(tool, Exchanged(j)), Result)
(* every name was given, in this order, and is no option unless it stands behind "--" *)
NamesGiven == \A j \in 1..Len(said.names) : \E i \in 1..Len(words) : words[i] = said.names[j]
OnlyLastOutput == said.output # <<>> => \E i \in 1..Len(words) : \E k \in 1..(Len(words[i]) + 1) : SubSeq(words[i], k, Len(words[i])) = said.output[1]
=============================================================================
