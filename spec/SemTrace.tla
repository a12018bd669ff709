------------------------------ MODULE SemTrace ------------------------------
(***************************************************************************)
(* Recorded uses of the analysis against Sem.tla.  A run asks questions in *)
(* some order, from one or more threads, and then collects the problems    *)
(* twice; every answer must be the one the source determines and the       *)
(* problems must be the same in every run, in one order.                   *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

AnsOk(x, a) ==
  IF a[1] = "call" THEN Unnumbered(a[3]) = Call(x, a[2]) ELSE a[3] = Answer(x, a[1], a[2])

\* contexts have distinct numbers from 0 on
Contexts(x) == {ContextName(x, c) : c \in Range(ContextCalls(x))}
NumbersOk(x, ans) ==
  LET cs == {i \in 1..Len(ans) : ans[i][1] = "call" /\ Number(ans[i][3]) # -1} IN
  /\ \A i \in cs : Number(ans[i][3]) < Cardinality(Contexts(x))
  /\ \A i, j \in cs : (Number(ans[i][3]) = Number(ans[j][3])) <=> (ContextName(x, ans[i][2]) = ContextName(x, ans[j][2]))

\* what is wrong with a recorded source, "" if nothing
AnalysisWrong(x) ==
  LET ps == Problems(x)
      r1 == x.runs[1]
  IN IF ~WellFormed(T(x), x.len) THEN "tree"
     ELSE IF \E i \in 1..Len(x.runs) : x.runs[i].bad # <<>> \/ x.runs[i].diags = <<>> THEN "refused"
     ELSE IF \E i \in 1..Len(x.runs) : \E j \in 1..Len(x.runs[i].ans) : ~AnsOk(x, x.runs[i].ans[j]) THEN "answer"
     ELSE IF ~NumbersOk(x, r1.ans) THEN "contexts"
     ELSE IF ~SameBag(r1.diags[1], ps) THEN "problems"
     ELSE IF ~Ordered(r1.diags[1]) THEN "order"
     ELSE IF \E i \in 1..Len(x.runs) : \E j \in 1..Len(x.runs[i].diags) : x.runs[i].diags[j] # r1.diags[1] THEN "unstable"
     ELSE ""

EditorWrong(x) ==
  LET O == x.offsets
      places == Places(x)
  IN IF x.hl = <<>> THEN "highlighting refused"
     ELSE IF x.hl[1] # Colours(x) THEN "highlighting"
     ELSE IF x.structure # <<Outline(x)>> THEN "outline"
     ELSE IF \E i \in 1..Len(x.goto) : x.goto[i] # <<GoTo(x, O[i])>> THEN "definition"
     ELSE IF \E i \in 1..Len(x.uses) : x.uses[i] # <<UsagesOf(places, DefAt(x, O[i]))>> THEN "usages"
     ELSE IF \E i \in 1..Len(O) : x.tests[i] # <<TestAt(x, O[i])>> THEN "test"
     ELSE ""

Wrong(x) ==
  LET a == AnalysisWrong(x) IN
  IF a # "" THEN a ELSE IF "offsets" \in DOMAIN x THEN EditorWrong(x) ELSE ""

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Wrong(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Wrong(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms ==
  \/ v = ""
  \/ PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v, p |-> Problems(Trace[c])])>>) /\ FALSE
=============================================================================
