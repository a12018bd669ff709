------------------------------ MODULE RustTrace ------------------------------
(* Recorded answers of the Rust editor against Rust.tla.                   *)
EXTENDS Rust, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

Clean(x) == \A n \in 1..Len(T(x)) : Ty(T(x), n) # "ERROR"

AnswerWrong(x, a) ==
  LET o == a[1]
      out == [k \in 1..Len(Ids) |-> Applied(x, o, Ids[k])]
      offered == SelectSeq(<<1, 2, 3>>, LAMBDA k : out[k] # <<>>)
  IN IF a[2] # <<Breadcrumbs(x, o)>> THEN "breadcrumbs"
     ELSE IF a[3] # <<AfterSpace(x, o)>> THEN "semicolon"
     ELSE IF a[4] # <<[k \in 1..Len(offered) |-> Ids[offered[k]]]>> THEN "offer"
     ELSE IF a[5] # [k \in 1..4 |-> IF k = 4 THEN <<<<>>>> ELSE <<out[k]>>] THEN "apply"
     \* `use a::super;` is no Rust, but the grammar takes it
     ELSE IF Clean(x) /\ (\E k \in 1..4 : a[6][k] # 0 /\ ~(k = 2 /\ Kid(x, Braced(x, o), "SUPER") # 0)) THEN "apply breaks the source"
     ELSE IF Reversible(x, AroundComma(x, o, White)) /\ a[7] # <<x.text>> THEN "back"
     ELSE ""

Wrong(x) ==
  IF ~WellFormed(T(x), x.len) THEN "tree"
  ELSE IF x.outline # Outline(x) THEN "outline"
  ELSE LET B == {i \in 1..Len(x.answers) : AnswerWrong(x, x.answers[i]) # ""} IN
       IF B = {} THEN "" ELSE LET i == CHOOSE i \in B : TRUE IN AnswerWrong(x, x.answers[i])

Explain(x) ==
  LET B == {i \in 1..Len(x.answers) : AnswerWrong(x, x.answers[i]) # ""} IN
  [outline |-> Outline(x),
   r |-> IF B = {} THEN <<>> ELSE LET a == x.answers[CHOOSE i \in B : TRUE] IN
         <<a, Breadcrumbs(x, a[1]), AfterSpace(x, a[1]), [k \in 1..3 |-> Applied(x, a[1], Ids[k])]>>]

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Wrong(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Wrong(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v = "" \/ (PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v, e |-> Explain(Trace[c])])>>) /\ FALSE)
=============================================================================
