------------------------------ MODULE TextEdit ------------------------------
(***************************************************************************)
(* The edit builder as a state machine: insertions, deletions and          *)
(* replacements are recorded one after another, then the edit is built and *)
(* applied.  The text has Len characters, numbered 0..Len-1; an insertion   *)
(* is named by its index in the history (so two insertions never look      *)
(* alike).  TLC explores every history of at most MaxOps operations; the   *)
(* driver replays each of them on the real builder.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,        \* length of the text
          MaxOps,   \* operations per history
          Emit      \* print the histories for the driver

VARIABLES hist,     \* operations recorded so far
          segs,     \* segments of the edit under construction
          last,     \* text before this offset is accounted for
          phase     \* "open" | "built" | "refused"
vars == <<hist, segs, last, phase>>

Offsets == 0..(N + 1)     \* one beyond the text
Rngs == {<<a, b>> \in Offsets \X Offsets : a <= b}

Init == hist = <<>> /\ segs = <<>> /\ last = 0 /\ phase = "open"

\* segments after copying up to offset o (o >= last)
Advance(o) == IF last < o THEN Append(segs, <<"c", last, o>>) ELSE segs

Record(op, at, seg, newLast) ==
  /\ phase = "open" /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, op)
  /\ IF last > at
     THEN phase' = "refused" /\ UNCHANGED <<segs, last>>
     ELSE /\ segs' = Advance(at) \o seg
          /\ last' = newLast
          /\ UNCHANGED phase

Insert(o) == Record(<<"insert", o, o>>, o, <<<<"i", Len(hist) + 1>>>>, o)
Delete(r) == Record(<<"delete", r[1], r[2]>>, r[1], <<>>, r[2])
Replace(r) == Record(<<"replace", r[1], r[2]>>, r[1], <<<<"i", Len(hist) + 1>>>>, r[2])

Build == /\ phase = "open"
         /\ IF last > N THEN phase' = "refused" /\ UNCHANGED <<segs, last>>
            ELSE segs' = Advance(N) /\ last' = N /\ phase' = "built"
         /\ UNCHANGED hist

Next == \/ \E o \in Offsets : Insert(o)
        \/ \E r \in Rngs : Delete(r) \/ Replace(r)
        \/ Build

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the edit means, independently of the builder.                      *)

\* the history names only text that exists, in increasing order, without overlap
WellPlaced(h) ==
  /\ \A i \in 1..Len(h) : h[i][2] >= 0 /\ h[i][2] <= h[i][3] /\ h[i][3] <= N
  /\ \A i, j \in 1..Len(h) : i < j => h[i][3] <= h[j][2]

Removed(h, c) == \E i \in 1..Len(h) : h[i][1] # "insert" /\ h[i][2] <= c /\ c < h[i][3]

\* insertions and replacement texts placed at offset o, in order of recording
RECURSIVE Placed(_, _, _)
Placed(h, o, i) ==
  IF i > Len(h) THEN <<>>
  ELSE (IF h[i][1] # "delete" /\ h[i][2] = o THEN <<<<"i", i>>>> ELSE <<>>) \o Placed(h, o, i + 1)

RECURSIVE Meaning(_, _)
Meaning(h, o) ==
  IF o > N THEN <<>>
  ELSE Placed(h, o, 1)
       \o (IF o < N /\ ~Removed(h, o) THEN <<<<"t", o>>>> ELSE <<>>)
       \o Meaning(h, o + 1)

RECURSIVE Apply(_)
Apply(s) ==
  IF s = <<>> THEN <<>>
  ELSE (IF Head(s)[1] = "c" THEN [k \in 1..(Head(s)[3] - Head(s)[2]) |-> <<"t", Head(s)[2] + k - 1>>]
        ELSE <<Head(s)>>) \o Apply(Tail(s))

Correct ==
  /\ phase = "built" => WellPlaced(hist) /\ Apply(segs) = Meaning(hist, 0)
  /\ phase = "refused" => ~WellPlaced(hist)

\* kept ranges are increasing and disjoint, as incremental relexing requires
RECURSIVE Increasing(_, _)
Increasing(s, from) ==
  IF s = <<>> THEN TRUE
  ELSE IF Head(s)[1] = "i" THEN Increasing(Tail(s), from)
  ELSE Head(s)[2] >= from /\ Head(s)[2] < Head(s)[3] /\ Increasing(Tail(s), Head(s)[3])
Disjoint == Increasing(segs, 0)

\* one line per finished history, for the driver
Finished == phase \in {"built", "refused"}
Emitted == (Emit /\ Finished) =>
  PrintT(<<"HISTORY", ToJson([h |-> hist, ok |-> phase = "built",
                              out |-> IF phase = "built" THEN Meaning(hist, 0) ELSE <<>>])>>)
=============================================================================
