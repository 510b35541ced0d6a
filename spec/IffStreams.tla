----------------------------- MODULE IffStreams ----------------------------
(***************************************************************************)
(* Several chunks on one stream (C22), and several streams at a time.      *)
(* The sources are put together from pieces, each the bytes of one chunk   *)
(* (well-formed, with surplus bytes, overrun, with odd padding, or never   *)
(* readable), and may be cut off anywhere in the last piece.  Chunks are   *)
(* then read from the sources in any interleaving, and those that were     *)
(* read are written to one destination, in that order or in the reverse    *)
(* one.                                                                    *)
(*                                                                         *)
(* Theorems: a chunk is read as if it were alone, whatever precedes it,    *)
(* follows it, or happens on the other stream; the position afterwards is  *)
(* the sum of the lengths of the pieces; reading fails in the piece that   *)
(* is cut off, and only there; chunks written one after the other can be   *)
(* read one after the other again.  The destination is empty, or holds     *)
(* bytes already, in the middle of which or behind which writing begins:   *)
(* what is before stays, and so does what is behind the last chunk.        *)
(***************************************************************************)
EXTENDS IffCore

CONSTANTS Pieces,     \* per source: the pieces it may consist of
          MaxPieces,  \* per source: how many
          Olds,       \* destinations: [b, at] (what they hold, where writing begins)
          Reg, Scope

VARIABLES made,   \* per source: the pieces, in order
          cut,    \* per source: bytes missing at the end
          stage,  \* "make", "read", "write"
          pos,    \* per source: position; -1 after a failure
          got,    \* chunks that were read: [s, j, d] (source, number in it, meaning)
          hist,   \* sources read from, in order
          todo,   \* numbers in got that are still to be written
          dest,   \* the destination as it was
          wpos,   \* position in it
          out,    \* what it holds
          order   \* numbers in got in the order in which they were written

vars == <<made, cut, stage, pos, got, hist, todo, dest, wpos, out, order>>
Sources == DOMAIN MaxPieces

(* writing in the middle of what is there, and possibly beyond it *)
Overwritten(b, p, e) == SubSeq(b, 1, p) \o e \o SubSeq(b, p + Len(e) + 1, Len(b))
Whole(s) == Flatten(made[s])
Content(s) == LET w == Whole(s) IN SubSeq(w, 1, Len(w) - cut[s])

Init == /\ made = [s \in Sources |-> <<>>] /\ cut = [s \in Sources |-> 0] /\ stage = "make"
        /\ pos = [s \in Sources |-> 0] /\ got = <<>> /\ hist = <<>> /\ todo = {} /\ order = <<>>
        /\ dest = [b |-> <<>>, at |-> 0] /\ wpos = 0 /\ out = <<>>

Append_(s) ==
  /\ stage = "make" /\ Len(made[s]) < MaxPieces[s]
  /\ \A t \in Sources : t > s => made[t] = <<>> \* one after the other
  /\ \E p \in Pieces[s] : made' = [made EXCEPT ![s] = Append(@, p)]
  /\ UNCHANGED <<cut, stage, pos, got, hist, todo, dest, wpos, out, order>>

StartReading ==
  /\ stage = "make" /\ made[1] # <<>>
  /\ \E c \in [Sources -> 0..3] :
       /\ \A s \in Sources : IF made[s] = <<>> THEN c[s] = 0 ELSE c[s] <= Len(made[s][Len(made[s])])
       /\ cut' = c
  /\ stage' = "read"
  /\ UNCHANGED <<made, pos, got, hist, todo, dest, wpos, out, order>>

ReadNext(s) ==
  /\ stage = "read" /\ pos[s] >= 0
  /\ made[s] # <<>>
  /\ hist' = Append(hist, s)
  /\ LET d == RdChunk(Content(s), pos[s], Scope, Reg)
     IN IF d.ok
        THEN /\ pos' = [pos EXCEPT ![s] = d.p]
             /\ got' = Append(got, [s |-> s, j |-> 1 + Cardinality({i \in 1..Len(got) : got[i].s = s}), d |-> d, from |-> pos[s]])
        ELSE pos' = [pos EXCEPT ![s] = -1] /\ UNCHANGED got
  /\ UNCHANGED <<made, cut, stage, todo, dest, wpos, out, order>>

StartWriting ==
  /\ stage = "read" /\ \A s \in Sources : made[s] = <<>> \/ pos[s] = -1
  /\ stage' = "write" /\ todo' = 1..Len(got)
  /\ \E o \in Olds : dest' = o /\ wpos' = o.at /\ out' = o.b
  /\ UNCHANGED <<made, cut, pos, got, hist, order>>

WriteOne(i) ==
  /\ stage = "write" /\ i \in todo
  /\ i = IF order # <<>> /\ order[1] = Len(got) THEN Max(todo) ELSE IF order # <<>> THEN Min(todo) ELSE i \* forwards or backwards
  /\ order # <<>> \/ i \in {1, Len(got)}
  /\ LET e == Encode(got[i].d.node) IN out' = Overwritten(out, wpos, e) /\ wpos' = wpos + Len(e)
  /\ todo' = todo \ {i} /\ order' = Append(order, i)
  /\ UNCHANGED <<made, cut, stage, pos, got, hist, dest>>

Next == \/ \E s \in Sources : Append_(s) \/ ReadNext(s)
        \/ StartReading \/ StartWriting
        \/ \E i \in todo : WriteOne(i)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == stage = "write" /\ todo = {}
LenOf(ps) == FoldLeft(LAMBDA a, p : a + Len(p), 0, ps)
Alone(p) == RdChunk(p, 0, Scope, Reg)
Shift(ev, n) == [i \in 1..Len(ev) |-> <<ev[i][1], ev[i][2], ev[i][3] + n>>]

(* only the last piece of a source can be incomplete or unreadable by itself *)
ReadAsAlone ==
  \A i \in 1..Len(got) :
    LET g == got[i]
        p == made[g.s][g.j]
    IN g.j <= Len(made[g.s]) /\ Alone(p).ok /\ g.d.node = Alone(p).node /\ g.d.warn = Alone(p).warn /\ g.d.ev = Shift(Alone(p).ev, g.from)
PositionRight ==
  \A i \in 1..Len(got) :
    LET g == got[i] IN g.from = LenOf(SubSeq(made[g.s], 1, g.j - 1)) /\ g.d.p = LenOf(SubSeq(made[g.s], 1, g.j))
NumberRead(s) == Cardinality({i \in 1..Len(got) : got[i].s = s})
ReadAll ==
  \A s \in Sources : pos[s] = -1 =>
    LET bad == {j \in 1..Len(made[s]) : ~Alone(made[s][j]).ok}
        n == IF bad # {} THEN Min(bad) - 1 ELSE Len(made[s])
    IN NumberRead(s) = IF cut[s] > 0 /\ n = Len(made[s]) THEN n - 1 ELSE n
(* how an independent reader takes the destination apart again *)
RECURSIVE Split(_, _)
Split(b, p) == IF p = Len(b) THEN <<>> ELSE LET d == RdChunk(b, p, Scope, Reg) IN IF d.ok THEN <<d.node>> \o Split(b, d.p) ELSE << <<>> >>
Regular == \A i \in 1..Len(got) : Consistent(got[i].d.node) /\ Canonical(got[i].d.node)
WrittenApart ==
  (Done /\ Regular) => Split(SubSeq(out, dest.at + 1, wpos), 0) = [i \in 1..Len(order) |-> got[order[i]].d.node]
RestKept ==
  /\ dest.at <= wpos /\ SubSeq(out, 1, dest.at) = SubSeq(dest.b, 1, dest.at)
  /\ Len(out) = Max({Len(dest.b), wpos}) /\ SubSeq(out, wpos + 1, Len(out)) = SubSeq(dest.b, wpos + 1, Len(dest.b))
=============================================================================
