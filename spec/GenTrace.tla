------------------------------- MODULE GenTrace -------------------------------
(***************************************************************************)
(* Conformance of generated parsers with the meaning of their source.      *)
(* A trace line: the source (f), the attachment rule of its verbatim block *)
(* (bind) and inputs [chars, rows]: the text and the tree the generated    *)
(* parser built, as rows <<depth, type name, start, end>>.                 *)
(***************************************************************************)
EXTENDS Gen, Lexer, TreeConv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 32

VARIABLES c, j, g, v     \* line, input, meaning of the line's source, verdict

TextOf(x) == [i \in 1..Len(x) |-> [c |-> x[i][1], b |-> x[i][2]]]
CodesOf(T, s, e) == [i \in 1..(e - s) |-> T[s + i - 1].c]

Sum(T, s, e) == LET RECURSIVE S(_, _)
                    S(i, a) == IF i >= e THEN a ELSE S(i + 1, a + T[i].b)
                IN S(s, 0)

\* raw tokens in the form TreeConv reads; txt: code points
Raw(F, T, toks) ==
  [i \in 1..Len(toks) |->
     [ty |-> toks[i][1], len |-> Sum(T, toks[i][2], toks[i][3]),
      ws |-> toks[i][1] # 0 /\ F.toks[toks[i][1]].skip,
      txt |-> CodesOf(T, toks[i][2], toks[i][3])]]

Expected(F, G, bind, chars) ==
  LET T == TextOf(chars)
      raw == Raw(F, T, Lex(LexRules(F, 1), F.res, T, 0))
      I == Signif(raw)
      NT == TypeNames(F)
      bk == [name |-> bind, root |-> G[1].ty]
      rows == Rows(raw, Offs(raw), I, bk, ParseRoot(G, I), 0, 1).rows
  IN [i \in 1..Len(rows) |-> <<rows[i][1], NameOf(NT, rows[i][2]), rows[i][3], rows[i][4]>>]

Verdict(line, G, inp) ==
  LET e == Expected(line.f, G, line.bind, inp.chars)
  IN IF inp.rows = e THEN "ok"
     ELSE IF PrintT(<<"EXPECTED", ToJson([c |-> c, j |-> j, e |-> e])>>) THEN "bad" ELSE "bad"

vars == <<c, j, g, v>>
Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ j = 0 /\ v = "ok" /\ g = Meaning(Trace[c].f)
Next == \/ /\ j < Len(Trace[c].ins)
           /\ j' = j + 1 /\ c' = c /\ g' = g
           /\ v' = Verdict(Trace[c], g, Trace[c].ins[j + 1])
        \/ /\ j = Len(Trace[c].ins) /\ c + Stride <= Len(Trace)
           /\ c' = c + Stride /\ j' = 0 /\ v' = v
           /\ g' = Meaning(Trace[c + Stride].f)
Spec == Init /\ [][Next]_vars
Conforms == v = "ok"
=============================================================================
