----------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded parses with the reference semantics.            *)
(* Each line of the trace is a grammar with a number of inputs and the     *)
(* trees the implementation built for them (after parsing from scratch     *)
(* and after every edit of a history).                                     *)
(***************************************************************************)
EXTENDS Engine, TreeConv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 32

VARIABLES c, j, v      \* trace line, input of that line, verdict on it

RawOf(x) == [i \in 1..Len(x) |-> [ty |-> x[i][1], len |-> x[i][2], ws |-> x[i][3] = 1, txt |-> x[i][4]]]

Expected(G, bind, x) ==
  LET raw == RawOf(x)
      I == Signif(raw)
      bk == [name |-> bind, root |-> G[1].ty]
  IN Rows(raw, Offs(raw), I, bk, ParseRoot(G, I), 0, 1).rows

Verdict(line, inp) ==
  LET e == Expected(line.g, line.bind, inp.raw)
      n == Len(e)
      L == e[1][4]
  IN CASE inp.rows = e /\ WellFormed(inp.rows, L) -> "ok"
       [] OTHER -> IF PrintT(<<"EXPECTED", ToJson([c |-> c, j |-> j, e |-> e])>>) THEN "bad" ELSE "bad"

vars == <<c, j, v>>

Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ j = 0
        /\ v = "ok"

Next == \/ /\ j < Len(Trace[c].ins)
           /\ j' = j + 1
           /\ c' = c
           /\ v' = Verdict(Trace[c], Trace[c].ins[j + 1])
        \/ /\ j = Len(Trace[c].ins)
           /\ c + Stride <= Len(Trace)
           /\ c' = c + Stride
           /\ j' = 0
           /\ v' = v

Spec == Init /\ [][Next]_vars

Conforms == v = "ok"
=============================================================================
