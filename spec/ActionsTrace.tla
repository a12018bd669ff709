---------------------------- MODULE ActionsTrace ----------------------------
(* Recorded formatting and editor actions against Actions.tla. *)
EXTENDS Actions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

\* per range: the actions offered, what applying each known and an unknown one gave, what exchanging back gave
RangeWrong(x, i) ==
  LET r == x.ranges[i]
      out == [k \in 1..Len(Ids) |-> Applied(x, r, Ids[k])]
      offered == SelectSeq(<<1, 2, 3>>, LAMBDA k : out[k] # <<>>)
  IN IF x.offered[i] # <<[k \in 1..Len(offered) |-> Ids[offered[k]]]>> THEN "offer"
     ELSE IF x.applied[i] # [k \in 1..4 |-> IF k = 4 THEN <<<<>>>> ELSE <<out[k]>>] THEN "apply"
     ELSE IF (Reversible(x, AroundComma(x, r[1], White)) /\ x.back[i][1] # <<x.text>>)
             \/ (Reversible(x, AroundPipe(x, r[1])) /\ x.back[i][2] # <<x.text>>) THEN "back"
     ELSE ""

Wrong(x) ==
  IF ~WellFormed(T(x), x.len) THEN "tree"
  ELSE IF x.format = <<>> THEN "format refused"
  ELSE IF x.format # <<Formatted(x)>> THEN "format"
  ELSE IF x.solid # Solid(x) THEN "format changes more than white space"
  ELSE IF x.again # x.format THEN "format is not stable"
  ELSE LET B == {i \in 1..Len(x.ranges) : RangeWrong(x, i) # ""} IN
       IF B = {} THEN "" ELSE LET i == CHOOSE i \in B : TRUE IN RangeWrong(x, i)

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Wrong(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Wrong(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Explain(x) ==
  LET B == {i \in 1..Len(x.ranges) : RangeWrong(x, i) # ""} IN
  [format |-> Formatted(x), solid |-> Solid(x),
   r |-> IF B = {} THEN <<>> ELSE LET i == CHOOSE i \in B : TRUE IN
         <<x.ranges[i], [k \in 1..3 |-> Applied(x, x.ranges[i], Ids[k])], x.offered[i], x.applied[i], x.back[i]>>]
Conforms == v = "" \/ (PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v, e |-> Explain(Trace[c])])>>) /\ FALSE)
=============================================================================
