------------------------------ MODULE TreeConv ------------------------------
(***************************************************************************)
(* From a forest over significant tokens to the concrete tree over all     *)
(* raw tokens: placement of skipped tokens (whitespace, comments).         *)
(* A concrete tree is its preorder listing <<depth, type, start, end>>.    *)
(* raw[i] = [ty, len, ws] ; B(ty, run, leading) = how many of the adjacent *)
(* skipped tokens `run` (indices) the node of type ty takes.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

\* Offs(raw)[i] = offset at which raw token i starts (i = Len+1: text length)
Offs(raw) ==
  LET RECURSIVE S(_, _)
      S(i, acc) == IF i > Len(raw) THEN acc
                   ELSE S(i + 1, Append(acc, acc[i] + raw[i].len))
  IN S(1, <<0>>)

RunEnd(raw, t) == \* first index from t on that is not a skipped token
  LET RECURSIVE E(_)
      E(u) == IF u <= Len(raw) /\ raw[u].ws THEN E(u + 1) ELSE u
  IN E(t)

Leaves(raw, O, d, t, u) ==
  [j \in 1..(u - t) |-> <<d, raw[t + j - 1].ty, O[t + j - 1], O[t + j]>>]

(* How many of the skipped tokens t..u-1 adjacent to a node of type ty     *)
(* belong to it; bk names the attachment rule.  The root takes everything. *)
\* attachment rules of the generated languages
RECURSIVE RunFwd(_, _, _), RunBwd(_, _, _)
Takes(raw, i) == raw[i].ty = 2 \/ raw[i].len = 1
RunFwd(raw, t, u) == IF t < u /\ Takes(raw, t) THEN 1 + RunFwd(raw, t + 1, u) ELSE 0
RunBwd(raw, t, u) == IF t < u /\ Takes(raw, u - 1) THEN 1 + RunBwd(raw, t, u - 1) ELSE 0
\* rust: comments up to a struct, on lines of their own without blank lines between
\* (raw text of whitespace is abbreviated to "n" if it contains a newline, else " ")
RECURSIVE RunRust(_, _, _)
RunRust(raw, t, u) ==
  IF t < u /\ (raw[u - 1].kind = "line" \/ (raw[u - 1].kind = "ws" /\ raw[u - 1].txt # "n"))
  THEN 1 + RunRust(raw, t, u - 1) ELSE 0

Bind(bk, raw, ty, t, u, leading) ==
  LET name == bk.name IN
  CASE ty = bk.root -> u - t
    [] name = "none" -> 0
    [] name = "parity" -> IF (ty % 2 = 0) = leading THEN u - t ELSE 0
    [] name = "one" -> IF u > t THEN 1 ELSE 0
    [] name = "comments" -> IF ty % 3 = 0 THEN 0
                            ELSE IF leading THEN RunBwd(raw, t, u) ELSE RunFwd(raw, t, u)
    [] OTHER -> 0

(* A node at depth d whose first raw token is t: its rows and the raw      *)
(* token after it.                                                         *)
RECURSIVE Rows(_, _, _, _, _, _, _), KidRows(_, _, _, _, _, _, _, _)
Rows(raw, O, I, bk, node, d, t) ==
  LET k == KidRows(raw, O, I, bk, node.kids, d + 1, t, <<>>)
      run == RunEnd(raw, k.t)
      take == Bind(bk, raw, node.ty, k.t, run, FALSE)
      t2 == k.t + take
  IN [t |-> t2,
      rows |-> <<<<d, node.ty, O[t], O[t2]>>>> \o k.rows \o Leaves(raw, O, d + 1, k.t, t2)]

KidRows(raw, O, I, bk, kids, d, t, acc) ==
  IF kids = <<>> THEN [t |-> t, rows |-> acc]
  ELSE LET x == Head(kids) IN
       IF x.n > 0
       THEN LET r == I[x.i].idx
                t2 == r + x.n
            IN KidRows(raw, O, I, bk, Tail(kids), d, t2,
                       acc \o Leaves(raw, O, d, t, r) \o <<<<d, x.ty, O[r], O[t2]>>>>)
       ELSE LET run == RunEnd(raw, t)
                s == run - Bind(bk, raw, x.ty, t, run, TRUE)
                sub == Rows(raw, O, I, bk, x, d, s)
            IN KidRows(raw, O, I, bk, Tail(kids), d, sub.t,
                       acc \o Leaves(raw, O, d, t, s) \o sub.rows)

\* the significant tokens
Signif(raw) ==
  LET RECURSIVE S(_, _)
      S(i, acc) == IF i > Len(raw) THEN acc
                   ELSE S(i + 1, IF raw[i].ws THEN acc
                                 ELSE Append(acc, [ty |-> raw[i].ty, idx |-> i, txt |-> raw[i].txt]))
  IN S(1, <<>>)

(* Well-formedness of a preorder listing over a text of length n:          *)
(* every node spans exactly its children, adjacent and in order; leaves    *)
(* tile the text.                                                          *)
RECURSIVE EndOf(_, _)
EndOf(rows, i) == \* index after the subtree of row i
  LET RECURSIVE E(_)
      E(j) == IF j <= Len(rows) /\ rows[j][1] > rows[i][1] THEN E(j + 1) ELSE j
  IN E(i + 1)

WellFormed(rows, n) ==
  /\ Len(rows) > 0
  /\ rows[1][1] = 0 /\ rows[1][3] = 0 /\ rows[1][4] = n
  /\ \A i \in 2..Len(rows) : rows[i][1] >= 1 /\ rows[i][1] <= rows[i - 1][1] + 1
  /\ \A i \in 1..Len(rows) :
       LET r == rows[i] IN
       /\ r[3] <= r[4]
       \* a node with children starts where its first child does ...
       /\ (i < Len(rows) /\ rows[i + 1][1] = r[1] + 1) => rows[i + 1][3] = r[3]
       \* ... and every row starts where the row before it (its sibling or a leaf of it) ended,
       \* ends where its last child ends
       /\ i < Len(rows) =>
            LET nx == rows[i + 1] IN
            nx[1] <= r[1] => nx[3] = r[4]
  /\ LET RECURSIVE Chk(_, _)
         \* stack discipline: closing a node requires its end to be the current end
         Chk(i, open) ==
           IF i > Len(rows)
           THEN \A j \in 1..Len(open) : open[j] = n
           ELSE LET d == rows[i][1]
                    closing == SubSeq(open, d + 1, Len(open))
                    at == rows[i][3]
                IN /\ \A j \in 1..Len(closing) : closing[j] = at
                   /\ \A j \in 1..d : rows[i][4] <= open[j]
                   /\ Chk(i + 1, Append(SubSeq(open, 1, d), rows[i][4]))
     IN Chk(1, <<>>)
=============================================================================
