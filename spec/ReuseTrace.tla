----------------------------- MODULE ReuseTrace -----------------------------
(***************************************************************************)
(* The effort recorded for reparsing after edits, against what Reuse says  *)
(* has to be taken over.  A line is a history of one document:             *)
(*   g      grammar, or <<>> where only a bound relative to the parse from *)
(*          scratch is known                                               *)
(*   steps  per edit: ops, old and new raw tokens (for a grammar) or token *)
(*          ends, whether an error token was among the old ones; recorded: *)
(*          bytes lexed again, parsing steps of the reparse and of a parse *)
(*          from scratch                                                   *)
(* Effort is compared up to a factor: the measure is the implementation's  *)
(* own.                                                                    *)
(***************************************************************************)
EXTENDS Reuse, TreeConv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 32

VARIABLES c, j, v

RawOf(x) == [i \in 1..Len(x) |-> [ty |-> x[i][1], len |-> x[i][2], ws |-> x[i][3] = 1, txt |-> x[i][4]]]

Relexed(s) == s.error = 1 \/ s.relexed <= RelexBound(s.oldEnds, s.newEnds, s.ops)

StartsOf(raw, I) ==
  LET o == Offs(raw)
      total == IF Len(raw) = 0 THEN 0 ELSE o[Len(raw)] + raw[Len(raw)].len
  IN Append([i \in 1..Len(I) |-> o[I[i].idx]], total)

Least == 6

\* model: m0 steps with and m1 without what is kept; real: s.inc and s.full
WithinModel(g, s) ==
  LET old == RawOf(s.old)  new == RawOf(s.new)
      I == Signif(old)  J == Signif(new)
      keep == Keep(g, I, StartsOf(old, I), StartsOf(new, J), s.ops)
      m0 == Steps(g, J, keep)
      m1 == Steps(g, J, {})
  IN /\ s.inc <= s.full + Least
     /\ s.inc * m1 <= 2 * (m0 + Least) * s.full

\* at most one in so many steps again
WithinShare(s) == s.inc <= s.full + Least /\ s.inc * s.share <= s.full

Good(line, s) ==
  IF s.bad = 1 THEN FALSE
  ELSE /\ Relexed(s)
       /\ IF line.g = <<>> THEN s.share = 0 \/ WithinShare(s) ELSE WithinModel(line.g, s)

Verdict(line, s) == IF Good(line, s) THEN "ok" ELSE "bad"

vars == <<c, j, v>>

Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ j = 0 /\ v = "ok"

Next == \/ /\ j < Len(Trace[c].steps)
           /\ j' = j + 1 /\ c' = c
           /\ v' = Verdict(Trace[c], Trace[c].steps[j + 1])
        \/ /\ j = Len(Trace[c].steps) /\ c + Stride <= Len(Trace)
           /\ c' = c + Stride /\ j' = 0 /\ v' = v

Spec == Init /\ [][Next]_vars
Conforms == v = "ok"
=============================================================================
