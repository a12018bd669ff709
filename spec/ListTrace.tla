----------------------------- MODULE ListTrace -----------------------------
(***************************************************************************)
(* Recorded listings of trees.  Each is a sequence of the lines between    *)
(* line ends, so the last is empty.                                        *)
(***************************************************************************)
EXTENDS Listing, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

VARIABLES c, v
TextOf(x) == [i \in 1..Len(x) |-> [s |-> x[i][3], b |-> x[i][2]]]

Good(x) ==
  LET T == TextOf(x.chars)
      hidden == ToSet(x.hidden)
      short == Lines(x.rows, T, hidden) \o <<"">>
  IN /\ x.short = short
     /\ x.full = Lines(x.rows, T, {}) \o <<"">>
     /\ \A i \in 1..Len(x.shown) : x.shown[i] = short

Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Good(Trace[c])
Next == c + Stride <= Len(Trace) /\ c' = c + Stride /\ v' = Good(Trace[c + Stride])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v
=============================================================================
