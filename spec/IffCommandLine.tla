--------------------------- MODULE IffCommandLine --------------------------
(***************************************************************************)
(* The command lines of iffjoin and iffpp: words are read one after the    *)
(* other, with what they say so far as the state.  Options may stand       *)
(* anywhere before a word "--", in their short form (several in one word,  *)
(* the argument attached or in the next word) or their long form (which    *)
(* may be shortened, the argument behind "=" or in the next word); the     *)
(* last output file counts.  Reading ends at a request for help or the     *)
(* version and at a word that makes no sense.                              *)
(*                                                                         *)
(* Words, names and contents are sequences of bytes.  A directory is a     *)
(* sequence of [name, state, content], with state "file" or "dir".  What a *)
(* command must leave behind in the directory in which it runs, and its    *)
(* exit status, follow from CommandOutcome.                                *)
(***************************************************************************)
EXTENDS IffTools

Dash == 45
OutputFile == <<111, 117, 116, 112, 117, 116, 45, 102, 105, 108, 101>>
DisableCheck == <<100, 105, 115, 97, 98, 108, 101, 45, 99, 104, 101, 99, 107>>
Help == <<104, 101, 108, 112>>
Version == <<118, 101, 114, 115, 105, 111, 110>>
(* letter, long form, whether a word belongs to it *)
OptionsOf(tool) ==
  {[s |-> 104, l |-> Help, arg |-> FALSE], [s |-> 118, l |-> Version, arg |-> FALSE]}
  \cup (IF tool = "iffjoin" THEN {[s |-> 111, l |-> OutputFile, arg |-> TRUE]} ELSE {[s |-> 99, l |-> DisableCheck, arg |-> FALSE]})

(* end: "" while the command line may go on *)
Said0 == [output |-> <<>>, nocheck |-> FALSE, names |-> <<>>, end |-> "", pending |-> FALSE, plain |-> FALSE]

(* option letter s with argument a *)
Say(st, s, a) ==
  CASE s = 111 -> [st EXCEPT !.output = <<a>>, !.pending = FALSE]
    [] s = 99 -> [st EXCEPT !.nocheck = TRUE]
    [] s = 104 -> [st EXCEPT !.end = "help"]
    [] s = 118 -> [st EXCEPT !.end = "version"]
Wrong(st) == [st EXCEPT !.end = "wrong"]

RECURSIVE Letters(_, _, _)
Letters(tool, st, w) ==
  IF w = <<>> \/ st.end # "" THEN st
  ELSE LET os == {o \in OptionsOf(tool) : o.s = Head(w)}
       IN IF os = {} THEN Wrong(st)
          ELSE LET o == CHOOSE x \in os : TRUE
               IN IF ~o.arg THEN Letters(tool, Say(st, o.s, <<>>), Tail(w))
                  ELSE IF Tail(w) = <<>> THEN [st EXCEPT !.pending = TRUE]
                  ELSE Say(st, o.s, Tail(w))

Starts(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
Equals(w) == {j \in 1..Len(w) : w[j] = 61}
Long(tool, st, w) ==
  LET eq == Equals(w)
      at == IF eq = {} THEN Len(w) + 1 ELSE Min(eq)
      name == SubSeq(w, 1, at - 1)
      fit == {o \in OptionsOf(tool) : Starts(o.l, name)}
      os == IF \E o \in fit : o.l = name THEN {o \in fit : o.l = name} ELSE fit
  IN IF Cardinality(os) # 1 THEN Wrong(st)
     ELSE LET o == CHOOSE x \in os : TRUE
          IN IF ~o.arg THEN (IF eq = {} THEN Say(st, o.s, <<>>) ELSE Wrong(st))
             ELSE IF eq = {} THEN [st EXCEPT !.pending = TRUE]
             ELSE Say(st, o.s, SubSeq(w, at + 1, Len(w)))

Read1(tool, st, w) ==
  IF st.end # "" THEN st
  ELSE IF st.pending THEN Say(st, 111, w)
  ELSE IF st.plain \/ Len(w) < 2 \/ w[1] # Dash THEN [st EXCEPT !.names = Append(@, w)]
  ELSE IF w = <<Dash, Dash>> THEN [st EXCEPT !.plain = TRUE]
  ELSE IF w[2] = Dash THEN Long(tool, st, SubSeq(w, 3, Len(w)))
  ELSE Letters(tool, st, Tail(w))

Concluded(st) == IF st.end = "" /\ st.pending THEN [Wrong(st) EXCEPT !.pending = FALSE] ELSE IF st.end = "" THEN [st EXCEPT !.end = "run", !.plain = FALSE] ELSE [st EXCEPT !.pending = FALSE, !.plain = FALSE]
Parse(tool, words) == Concluded(FoldLeft(LAMBDA st, w : Read1(tool, st, w), Said0, words))

---------------------------------------------------------------------------
(* what the command does *)
Found(dir, name) == {j \in 1..Len(dir) : dir[j].name = name}
InputOf(dir, name) ==
  LET f == Found(dir, name) IN IF f = {} THEN [state |-> "missing", content |-> <<>>] ELSE LET x == dir[CHOOSE j \in f : TRUE] IN [state |-> x.state, content |-> x.content]
Holds(x) == [there |-> x.state # "missing", bytes |-> x.content]

AsSet(dir) == {dir[j] : j \in 1..Len(dir)}
Placed(dir, name, bytes) == {x \in AsSet(dir) : x.name # name} \cup {[name |-> name, state |-> "file", content |-> bytes]}

JoinCommand(p, dir) ==
  LET inputs == TLCEval([j \in 1..Len(p.names) |-> InputOf(dir, p.names[j])])
  IN IF p.output = <<>>
     THEN LET o == JoinOutcome(inputs, "stdout", Holds([state |-> "missing", content |-> <<>>]), -1) IN [exit |-> o.exit, out |-> <<o.out>>, dir |-> AsSet(dir)]
     ELSE LET name == p.output[1]
              before == InputOf(dir, name)
              dest == IF before.state = "dir" \/ (\E j \in 1..Len(name) : name[j] = 47) THEN "nodir" ELSE "file"
              o == JoinOutcome(inputs, dest, Holds(before), -1)
          IN [exit |-> o.exit, out |-> << <<>> >>, dir |-> IF o.exit = 0 THEN Placed(dir, name, o.post.bytes) ELSE AsSet(dir)]
PPCommand(p, dir, stdin) ==
  LET o == PPOutcome(IF p.names = <<>> THEN [state |-> "file", content |-> stdin] ELSE InputOf(dir, p.names[1]), p.nocheck)
  IN [exit |-> o.exit, out |-> <<o.out>>, dir |-> AsSet(dir)]

(* out: what is on standard output, if that is specified *)
CommandOutcome(tool, words, dir, stdin) ==
  LET p == Parse(tool, words)
  IN CASE p.end \in {"help", "version"} -> [exit |-> 0, out |-> <<>>, dir |-> AsSet(dir)]
       [] p.end = "wrong" -> [exit |-> 1, out |-> <<>>, dir |-> AsSet(dir)]
       [] tool = "iffjoin" -> JoinCommand(p, dir)
       [] OTHER -> PPCommand(p, dir, stdin)

Mentions(text, w) == \E j \in 1..(Len(text) - Len(w) + 1) : SubSeq(text, j, j + Len(w) - 1) = w
PackageVersion == <<57, 46, 56, 55>> \* with which the tools are built here

CommandFaults(e) ==
  LET p == Parse(e.tool, e.args)
      o == TLCEval(CommandOutcome(e.tool, e.args, e.before, e.stdin))
  IN IF e.tool = "iffpp" /\ Len(p.names) > 1 /\ p.end = "run" THEN {} \* not specified
     ELSE (IF e.exit # o.exit THEN {"exit status"} ELSE {})
          \cup (IF AsSet(e.after) # o.dir THEN {"files"} ELSE {})
          \cup (IF o.out # <<>> /\ e.out # o.out[1] THEN {"standard output"} ELSE {})
          \cup (IF p.end = "help" /\ \E x \in OptionsOf(e.tool) : ~Mentions(e.out, <<Dash, Dash>> \o x.l) THEN {"an option is not explained"} ELSE {})
          \cup (IF p.end = "version" /\ ~Mentions(e.out, PackageVersion) THEN {"no version"} ELSE {})
=============================================================================
