------------------------------- MODULE Reuse -------------------------------
(***************************************************************************)
(* What an edit must not cause to be done again.                           *)
(*                                                                         *)
(* Tokens.  Within a kept range, from the first boundary that the old and  *)
(* the new tokens have in common, tokens are taken over, except next to    *)
(* the ends of the range.                                                  *)
(*                                                                         *)
(* Parse.  A cached expression that matched, without an error node, a      *)
(* stretch which lies in a kept range is taken over where the range went:  *)
(* coming to it there again is one step.  Only expressions not inside      *)
(* other cached ones are considered.                                       *)
(***************************************************************************)
EXTENDS Engine, FiniteSets, SequencesExt

\* ---------------------------------------------------------------- tokens
\* ends: offsets of the ends of the tokens, increasing, from 0 (start of the text) on

InRange(ends, a, b) == SelectSeq(ends, LAMBDA x : a <= x /\ x <= b)

\* bytes of the range [s, e) of the old text, now at t, that must be taken over
KeptTokens(oldEnds, newEnds, s, e, t) ==
  LET new == ToSet(newEnds)
      B == InRange(oldEnds, s, e)
      C == {i \in 1..Len(B) : B[i] - s + t \in new}
  IN IF C = {} THEN 0
     ELSE LET i == CHOOSE x \in C : \A y \in C : x <= y
              hi == Len(B) - 2
          IN IF i + 1 >= hi THEN 0 ELSE B[hi] - B[i + 1]

OpLen(o) == IF o[1] = "c" THEN o[3] - o[2] ELSE o[2]     \* <<"i", length>>

RECURSIVE KeptOf(_, _, _, _)
KeptOf(oldEnds, newEnds, ops, at) ==
  IF ops = <<>> THEN 0
  ELSE LET o == Head(ops)
           here == IF o[1] = "c" THEN KeptTokens(oldEnds, newEnds, o[2], o[3], at) ELSE 0
       IN here + KeptOf(oldEnds, newEnds, Tail(ops), at + OpLen(o))

\* the most that may be lexed again
RelexBound(oldEnds, newEnds, ops) ==
  newEnds[Len(newEnds)] - KeptOf(oldEnds, newEnds, ops, 0)

\* ----------------------------------------------------------------- parse
RECURSIVE HasError(_)
HasError(f) == \E i \in 1..Len(f) : (f[i].ty = ERR /\ f[i].n = 0) \/ HasError(f[i].kids)

Run(G, I, keep) == P(G, I, 1, 1, Len(I) + 1, {}, NoArgs, [NoSt EXCEPT !.keep = keep])

\* The cached stretches of a parse that are not inside others, for a grammar whose start rule repeats
\* cached expressions: the last one completed at a position is the outermost.
RECURSIVE Outermost(_, _, _)
Outermost(log, p, last) ==
  IF p >= last THEN <<>>
  ELSE LET at == {i \in 1..Len(log) : log[i].p = p}
       IN IF at = {} THEN <<>>
          ELSE LET x == log[CHOOSE i \in at : \A k \in at : k <= i]
               IN IF x.q = p THEN <<>> ELSE <<x>> \o Outermost(log, x.q, last)

\* off: where each significant token begins, the length of the text appended
Where(ops, a, b) ==      \* places at which the range [a, b) of the old text is now
  LET RECURSIVE Go(_, _)
      Go(os, at) ==
        IF os = <<>> THEN {}
        ELSE LET o == Head(os)
             IN (IF o[1] = "c" /\ o[2] <= a /\ b <= o[3] THEN {at + (a - o[2])} ELSE {})
                \cup Go(Tail(os), at + OpLen(o))
  IN Go(ops, 0)

Keep(G, I, off, newOff, ops) ==
  LET r == Run(G, I, {})
      items == Outermost(r.st.log, 1, IF r.ok THEN r.p ELSE 1)
      places(x) == {<<x.e, j>> : j \in {j \in 1..(Len(newOff) - 1) : newOff[j] \in Where(ops, off[x.p], off[x.q])}}
  IN UNION {places(items[i]) : i \in {i \in 1..Len(items) : ~HasError(items[i].f)}}

Steps(G, I, keep) == Run(G, I, keep).st.n
=============================================================================
