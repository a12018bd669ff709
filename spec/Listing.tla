------------------------------ MODULE Listing ------------------------------
(***************************************************************************)
(* How a tree is shown.  One line per node, parents before children,      *)
(* indented by two blanks per level: the name of its type and, if it has   *)
(* no children, the text it stands for, quoted.  Blanks and comments, and  *)
(* what is inside them, are shown only in the full listing.                *)
(*   rows   <<depth, type name, start, end>> in preorder                   *)
(*   T      the text, a sequence of [s (one character), b (its bytes)]     *)
(*   hidden names of the types that are left out                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Escape(ch) ==
  CASE ch = "\n" -> "\\n" [] ch = "\t" -> "\\t" [] ch = "\r" -> "\\r"
    [] ch = "'" -> "\\'" [] ch = "\"" -> "\\\"" [] ch = "\\" -> "\\\\" [] OTHER -> ch

RECURSIVE Indent(_)
Indent(n) == IF n = 0 THEN "" ELSE "  " \o Indent(n - 1)

\* the characters from the i-th on that make up n bytes, quoted, and the place after them
RECURSIVE Take(_, _, _, _)
Take(T, i, n, acc) ==
  IF n = 0 \/ i > Len(T) THEN <<acc, i>>
  ELSE Take(T, i + 1, n - T[i].b, acc \o Escape(T[i].s))

IsLeaf(rows, i) == i = Len(rows) \/ rows[i + 1][1] <= rows[i][1]

\* inside: depth of the hidden node we are in (0: none; the root has depth 0 and is not hidden)
RECURSIVE LinesFrom(_, _, _, _, _, _, _)
LinesFrom(rows, T, hidden, i, at, inside, acc) ==
  IF i > Len(rows) THEN acc
  ELSE LET d == rows[i][1]
           in0 == IF inside > 0 /\ d > inside THEN inside ELSE 0
           in1 == IF in0 = 0 /\ rows[i][2] \in hidden THEN d ELSE in0
           leaf == IsLeaf(rows, i)
           t == IF leaf THEN Take(T, at, rows[i][4] - rows[i][3], "") ELSE <<"", at>>
           line == Indent(d) \o rows[i][2] \o (IF leaf THEN " \"" \o t[1] \o "\"" ELSE "")
       IN LinesFrom(rows, T, hidden, i + 1, t[2], in1, IF in1 > 0 THEN acc ELSE Append(acc, line))

Lines(rows, T, hidden) == LinesFrom(rows, T, hidden, 1, 1, 0, <<>>)
=============================================================================
