----------------------------- MODULE SymbolTrace -----------------------------
(* Recorded answers of symbol search over files against Rust.tla.          *)
EXTENDS Rust, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

\* an answer is <<query, results>>
Tables(x) == [p \in DOMAIN x.files |-> Table(x.low, x.files[p])]
BadAnswers(x) == LET ts == Tables(x) IN {i \in 1..Len(x.answers) : ~GoodAnswer(x.low, ts, x.answers[i][1], x.answers[i][2])}
Wrong(x) ==
  IF \E p \in DOMAIN x.files : x.files[p].outline # Outline(x.files[p]) THEN "outline"
  ELSE IF BadAnswers(x) # {} THEN "search" ELSE ""
Explain(x) ==
  IF BadAnswers(x) = {} THEN <<>> ELSE LET a == x.answers[CHOOSE i \in BadAnswers(x) : TRUE] IN
  <<a, [p \in DOMAIN x.files |-> {s \in Table(x.low, x.files[p]) : InOrder(Lower(x.low, Without(a[1], "#")), s[2])}]>>

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Wrong(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Wrong(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v = "" \/ (PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v, e |-> Explain(Trace[c])])>>) /\ FALSE)
=============================================================================
