---------------------------- MODULE ExampleTrace ----------------------------
(***************************************************************************)
(* The examples of a grammar source.  Each test is parsed as the source    *)
(* means (Gen), without blanks around its text, and shown (Listing) in the *)
(* order of the tests.  A line of the trace:                               *)
(*   f, bind  the source      tests  its tests  hidden  names of what is   *)
(*            skipped          refused: not a grammar, with the reason err *)
(*   all      lines of the rendering of all tests, examples: of the file   *)
(*            written beside the source, files: all that are then there    *)
(*   ones     <<number from 0, lines>> for single tests                    *)
(*   rs       what the file with the parser holds then: was (what it did   *)
(*            before), gen (what generate gives)                           *)
(***************************************************************************)
EXTENDS Gen, Lexer, TreeConv, Listing, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 16

VARIABLES c, v

Blank(x) == x[3] \in {" ", "\n", "\t"}
RECURSIVE TrimL(_)
TrimL(x) == IF x = <<>> THEN x ELSE IF Blank(x[1]) THEN TrimL(Tail(x)) ELSE x
RECURSIVE TrimR(_)
TrimR(x) == IF x = <<>> THEN x ELSE IF Blank(x[Len(x)]) THEN TrimR(SubSeq(x, 1, Len(x) - 1)) ELSE x

TextOf(x) == [i \in 1..Len(x) |-> [c |-> x[i][1], b |-> x[i][2], s |-> x[i][3]]]
CodesOf(T, s, e) == [i \in 1..(e - s) |-> T[s + i - 1].c]
Sum(T, s, e) == LET RECURSIVE S(_, _)
                    S(i, a) == IF i >= e THEN a ELSE S(i + 1, a + T[i].b)
                IN S(s, 0)
Raw(F, T, toks) ==
  [i \in 1..Len(toks) |->
     [ty |-> toks[i][1], len |-> Sum(T, toks[i][2], toks[i][3]),
      ws |-> toks[i][1] # 0 /\ F.toks[toks[i][1]].skip,
      txt |-> CodesOf(T, toks[i][2], toks[i][3])]]

ShownTest(F, G, bind, hidden, chars) ==
  LET T == TextOf(TrimR(TrimL(chars)))
      raw == Raw(F, T, Lex(LexRules(F, 1), F.res, T, 0))
      I == Signif(raw)
      NT == TypeNames(F)
      bk == [name |-> bind, root |-> G[1].ty]
      rows == Rows(raw, Offs(raw), I, bk, ParseRoot(G, I), 0, 1).rows
      named == [i \in 1..Len(rows) |-> <<rows[i][1], NameOf(NT, rows[i][2]), rows[i][3], rows[i][4]>>]
  IN Lines(named, T, hidden) \o <<"", "">>

RECURSIVE AllOf(_, _)
AllOf(shown, i) == IF i > Len(shown) THEN <<"">> ELSE shown[i] \o AllOf(shown, i + 1)

Verdict(x) ==
  LET G == Meaning(x.f)
      hidden == {x.f.toks[i].u : i \in {i \in 1..Len(x.f.toks) : x.f.toks[i].skip}}
      shown == [i \in 1..Len(x.tests) |-> ShownTest(x.f, G, x.bind, hidden, x.tests[i])]
      message == <<"error:">> \o x.err
      all == IF x.valid = 0 THEN message ELSE AllOf(shown, 1)
      one(k) == IF k >= Len(x.tests) THEN <<"">> ELSE IF x.valid = 0 THEN message ELSE shown[k + 1] \o <<"">>
  IN IF x.refused # 1 - x.valid \/ x.ok # x.valid THEN "refused"
     ELSE IF x.all # all
     THEN IF PrintT(<<"EXPECTED", ToJson([c |-> c, e |-> all])>>) THEN "all" ELSE "bad"
     ELSE IF x.examples # x.all THEN "examples"
     ELSE IF x.rs # (IF x.valid = 1 THEN "gen" ELSE "was") THEN "code"
     ELSE IF x.same # 1 \/ x.files # <<"gr.am.fall", "gr.am.rs", "gr.am.txt">> THEN "files"
     ELSE IF \E i \in 1..Len(x.ones) : x.ones[i][2] # one(x.ones[i][1]) THEN "one"
     ELSE "ok"

Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Verdict(Trace[c])
Next == c + Stride <= Len(Trace) /\ c' = c + Stride /\ v' = Verdict(Trace[c + Stride])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v = "ok"
=============================================================================
