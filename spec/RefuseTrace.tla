----------------------------- MODULE RefuseTrace -----------------------------
(***************************************************************************)
(* What the generator did with grammar sources: "code" or "refused".       *)
(***************************************************************************)
EXTENDS Refuse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64
Expected(x) == IF Generable(x) THEN "code" ELSE "refused"

VARIABLES c, v
Verdict(x) == IF x.same /\ x.out = Expected(x) THEN "" ELSE Expected(x)
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Verdict(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Verdict(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v = ""
=============================================================================
