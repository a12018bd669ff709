------------------------------ MODULE AstTrace ------------------------------
(* What generated wrappers did on trees, against Ast.tla.  A line is an ast *)
(* block with the trait implementations found and the trees inspected.      *)
EXTENDS Ast, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

InWrong(A, x) ==
  LET ws == Wrappers(A) IN
  IF ~WellFormed(x.nodes, x.len) THEN "tree"
  ELSE IF x.taken # [i \in 1..Len(ws) |-> Taken(A, x, ws[i])] THEN "wrap"
  ELSE IF x.below # [i \in 1..Len(ws) |-> Below(A, x, ws[i])] THEN "descendants"
  ELSE IF x.above # [i \in 1..Len(ws) |-> [n \in 1..Len(x.nodes) |-> Above(A, x, ws[i], n)]] THEN "ancestor"
  ELSE IF x.calls # Calls(A, x) THEN "calls" ELSE ""

Bad(l) == {i \in 1..Len(l.ins) : InWrong(l.ast, l.ins[i]) # ""}
Wrong(l) ==
  IF l.implements # Implements(l.ast) THEN "implements"
  ELSE IF Bad(l) = {} THEN "" ELSE InWrong(l.ast, l.ins[CHOOSE i \in Bad(l) : TRUE])
Explain(l) ==
  IF Bad(l) = {} THEN <<Implements(l.ast)>>
  ELSE LET x == l.ins[CHOOSE i \in Bad(l) : TRUE]
           e == Calls(l.ast, x)
           d == {i \in 1..Len(e) : i > Len(x.calls) \/ (x.calls[i] # e[i])}
       IN <<x, [i \in 1..Len(Wrappers(l.ast)) |-> Taken(l.ast, x, Wrappers(l.ast)[i])],
            IF d = {} THEN <<>> ELSE e[CHOOSE i \in d : \A j \in d : i <= j]>>

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Wrong(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Wrong(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v = "" \/ (PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v, e |-> Explain(Trace[c])])>>) /\ FALSE)
=============================================================================
