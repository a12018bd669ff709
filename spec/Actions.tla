------------------------------ MODULE Actions ------------------------------
(***************************************************************************)
(* What the editor does to a grammar source: the formatter, swapping       *)
(* neighbours around a comma or a pipe, extracting a rule.                 *)
(***************************************************************************)
EXTENDS Sem, Editing

Blank(x, n) == Ty(T(x), n) = "WHITESPACE"
White == {"WHITESPACE", "EOL_COMMENT"}

Contains(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
Lines(x, n) == Contains(TextOf(x, n), "\n")

-----------------------------------------------------------------------------
(* The formatter: one space around a pipe, none inside the brackets of a   *)
(* call, looking at direct neighbours and leaving line breaks alone.       *)
\* empty nodes take no part
RECURSIVE Left(_, _), Right(_, _)
Left(x, n) == LET m == LeftSibling(T(x), n) IN IF m # 0 /\ IsEmpty(T(x), m) THEN Left(x, m) ELSE m
Right(x, n) == LET m == RightSibling(T(x), n) IN IF m # 0 /\ IsEmpty(T(x), m) THEN Right(x, m) ELSE m
IsA(x, n, ty) == n # 0 /\ Is(x, n, ty)

Tight(x, n) == IsA(x, Left(x, n), "L_ANGLE") \/ IsA(x, Right(x, n), "R_ANGLE")
Loose(x, n) == IsA(x, Left(x, n), "PIPE") \/ IsA(x, Right(x, n), "PIPE")
Blanks(x) == {n \in 1..Len(T(x)) : Blank(x, n) /\ ~Lines(x, n)}

\* a space is missing after n: between a pipe and its neighbour
Missing(x, n) ==
  LET r == Right(x, n) IN
  /\ r # 0 /\ ~IsEmpty(T(x), n) /\ ~Blank(x, n) /\ ~Blank(x, r)
  /\ (Is(x, n, "PIPE") /\ ~Lines(x, r)) \/ (Is(x, r, "PIPE") /\ ~Lines(x, n))
  /\ ~Is(x, n, "L_ANGLE") /\ ~Is(x, r, "R_ANGLE")

Formatted(x) ==
  LET tight == {n \in Blanks(x) : Tight(x, n)}
      \* one blank character of any kind will do
      loose == {n \in Blanks(x) \ tight : Loose(x, n) /\ To(T(x), n) - From(T(x), n) # 1}
      miss == {n \in 1..Len(T(x)) : Missing(x, n)}
  IN Out(x, 1, [n \in tight \cup loose |-> IF n \in tight THEN "" ELSE " "], [n \in miss |-> " "])

Solid(x) == LET L == SelectSeq([i \in 1..Len(T(x)) |-> i], LAMBDA n : IsLeaf(T(x), n) /\ ~Blank(x, n))
            IN [i \in 1..Len(L) |-> <<Ty(T(x), L[i]), Txt(x, L[i])>>]

-----------------------------------------------------------------------------
(* Actions.  A pair of nodes to exchange, <<>> if there is none.           *)
Pipe(x, o) == FirstLeaf(x, LeavesAt(T(x), 1, o), "PIPE", "")
AroundPipe(x, o) ==
  LET p == Pipe(x, o) IN
  IF p = 0 THEN <<>>
  ELSE IF ~IsA(x, Parent(T(x), p), "BLOCK_EXPR") THEN <<>>
  ELSE LET alts == Exprs(x, Parent(T(x), p))
           before == SelectSeq(alts, LAMBDA a : a < p)
           after == SelectSeq(alts, LAMBDA a : a > p)
       IN IF before = <<>> \/ after = <<>> THEN <<>> ELSE <<Last(before), after[1]>>

\* the nodes to extract: the expression around the selection, or the part of a sequence it names
RECURSIVE UpTo(_, _, _)
UpTo(x, n, tys) == IF n = 0 THEN 0 ELSE IF Ty(T(x), n) \in tys THEN n ELSE UpTo(x, Parent(T(x), n), tys)
Overlaps(x, n, r) == ~IsEmpty(T(x), n) /\ From(T(x), n) < r[2] /\ r[1] < To(T(x), n)
Extracted(x, r) ==
  IF r[1] = r[2] THEN <<>>
  ELSE LET e == UpTo(x, Covering(T(x), r), ExprTypes) IN
       IF e = 0 THEN <<>>
       ELSE IF Is(x, e, "REF_EXPR") THEN <<>>
       ELSE LET hit == SelectSeq(Kids(T(x), e), LAMBDA k : Overlaps(x, k, r)) IN
            IF Is(x, e, "SEQ_EXPR") /\ Len(hit) > 1 /\ Ty(T(x), hit[1]) \in ExprTypes /\ Ty(T(x), Last(hit)) \in ExprTypes
            THEN hit ELSE <<e>>
WithExtracted(x, ns) ==
  LET rule == Up(x, ns[1], "SYN_RULE") IN
  Out(x, 1, [n \in Range(ns) |-> IF n = ns[1] THEN "new_rule" ELSE ""],
            [n \in {rule} |-> "\n\nrule new_rule {\n  " \o TextAll(x, ns) \o "\n}"])

\* what applying an action gives: <<>> if it is not available, or <<the new text>>
Applied(x, r, id) ==
  CASE id = "Swap" -> (LET p == AroundComma(x, r[1], White) IN IF p = <<>> THEN <<>> ELSE <<Exchanged(x, p)>>)
    [] id = "Swap alternatives" -> (LET p == AroundPipe(x, r[1]) IN IF p = <<>> THEN <<>> ELSE <<Exchanged(x, p)>>)
    [] id = "Extract rule" -> (LET e == Extracted(x, r) IN IF e = <<>> THEN <<>> ELSE <<WithExtracted(x, e)>>)
    [] OTHER -> <<>>
Ids == <<"Swap", "Swap alternatives", "Extract rule">>

=============================================================================
