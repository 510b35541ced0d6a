------------------------------ MODULE IffTools -----------------------------
(***************************************************************************)
(* What a run of iffjoin and of iffpp must show from outside: exit status, *)
(* standard output and the output file.  A run is a record:                *)
(*                                                                         *)
(*  iffjoin: inputs   sequence of [state, content]; state "file", "missing"*)
(*                    or "dir"                                             *)
(*           dest     "stdout", "file", or a destination that cannot take  *)
(*                    everything: "full", "nodir", "capped", "closed"      *)
(*           pre      the output file before: [there, bytes]               *)
(*           exit, out (bytes on standard output), post (as pre)           *)
(*  iffpp:   input    [state, content], stdin (given there or by name),    *)
(*           nocheck, exit, out                                            *)
(***************************************************************************)
EXTENDS IffCore

Readable(inp) == inp.state = "file" /\ Decode(inp.content, DefaultReg).ok
Valid(inp) == inp.state = "file" /\ LET d == Decode(inp.content, DefaultReg) IN d.ok /\ Conforms(d.node)

Main(inp) == Decode(inp.content, DefaultReg).node

RECURSIVE Chunks(_)
Chunks(n) == 1 + FoldLeft(LAMBDA a, c : a + Chunks(c), 0, n.props) + FoldLeft(LAMBDA a, c : a + Chunks(c), 0, n.kids)

Joined(inputs) ==
  LET ms == TLCEval([j \in 1..Len(inputs) |-> Main(inputs[j])]) IN MkCat(FoldType(JJJJ, 1, ms), ms)

Joinable(inputs) == inputs # <<>> /\ \A j \in 1..Len(inputs) : Valid(inputs[j])

(* the file an output went to replaces everything; otherwise nothing changes *)
JoinOutcome(inputs, dest, pre, cap) ==
  IF ~Joinable(inputs) THEN [exit |-> 1, out |-> <<>>, post |-> pre, exact |-> TRUE]
  ELSE LET b == TLCEval(Encode(Joined(inputs)))
       IN CASE dest = "stdout" -> [exit |-> 0, out |-> b, post |-> pre, exact |-> TRUE]
            [] dest = "file" -> [exit |-> 0, out |-> <<>>, post |-> [there |-> TRUE, bytes |-> b], exact |-> TRUE]
            [] dest = "capped" /\ cap >= Len(b) -> [exit |-> 0, out |-> <<>>, post |-> [there |-> TRUE, bytes |-> b], exact |-> TRUE]
            [] OTHER -> [exit |-> 1, out |-> <<>>, post |-> pre, exact |-> FALSE] \* what was stored by then is not specified

JoinFaults(e) ==
  LET o == JoinOutcome(e.inputs, e.dest, e.pre, e.cap)
  IN (IF e.exit # o.exit THEN {"exit status of iffjoin"} ELSE {})
     \cup (IF e.dest # "closed" /\ e.dest # "full" /\ e.out # o.out THEN {"standard output of iffjoin"} ELSE {})
     \cup (IF o.exact /\ e.post # o.post THEN {"output file of iffjoin"} ELSE {})

PPOutcome(input, nocheck) ==
  IF Readable(input) /\ (nocheck \/ Valid(input)) THEN [exit |-> 0, out |-> TLCEval(Render(Main(input), 0))]
  ELSE [exit |-> 1, out |-> <<>>]

(* whether a file with a negative size can be read is not specified; such a file never conforms *)
Unspecified(e) == e.nocheck /\ e.input.state = "file" /\ Decode(e.input.content, DefaultReg).anom

PPFaults(e) ==
  LET o == PPOutcome(e.input, e.nocheck)
  IN IF Unspecified(e) THEN {} ELSE
     (IF e.exit # o.exit THEN {"exit status of iffpp"} ELSE {})
     \cup (IF e.out # o.out THEN {"standard output of iffpp"} ELSE {})

=============================================================================
