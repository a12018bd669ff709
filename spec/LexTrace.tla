------------------------------- MODULE LexTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded token sequences with the lexing semantics.      *)
(* A trace line: lexical rules (rules, res), types of contextual tokens    *)
(* (ctx), the type of error tokens (err) and inputs [chars, leaves].       *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 32
VARIABLES c, j, v
vars == <<c, j, v>>

TextOf(x) == [i \in 1..Len(x) |-> [c |-> x[i][1], b |-> x[i][2]]]

\* A character of more than four bytes stands for many equal ones between two more of them, which is
\* a text like the real one only if no token begins in between.
Split(T, toks) == \E i \in 1..Len(T) : T[i].b > 4 /\ \E k \in 1..Len(toks) : toks[k][2] \in {i, i + 1}

Verdict(line, inp) ==
  LET T == TextOf(inp.chars)
      l == Lex(line.rules, line.res, T, line.err)
      e == InBytes(T, l)
  IN IF Split(T, l) THEN "ok"
     ELSE IF /\ Tiles(T, e)
        /\ IF line.ctx = <<>> THEN inp.leaves = e ELSE LeavesOk(inp.leaves, e, line.ctx)
     THEN "ok"
     ELSE IF PrintT(<<"EXPECTED", ToJson([c |-> c, j |-> j, e |-> e])>>) THEN "bad" ELSE "bad"

Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ j = 0 /\ v = "ok"
Next == \/ /\ j < Len(Trace[c].ins)
           /\ j' = j + 1 /\ c' = c
           /\ v' = Verdict(Trace[c], Trace[c].ins[j + 1])
        \/ /\ j = Len(Trace[c].ins) /\ c + Stride <= Len(Trace)
           /\ c' = c + Stride /\ j' = 0 /\ v' = v
Spec == Init /\ [][Next]_vars
Conforms == v = "ok"
=============================================================================
