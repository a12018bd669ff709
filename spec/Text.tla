-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Ranges of byte offsets and texts as plain strings.  A string is a       *)
(* sequence of code points; offsets count bytes of its UTF-8 form.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Width(cp) == IF cp < 128 THEN 1 ELSE IF cp < 2048 THEN 2 ELSE IF cp < 65536 THEN 3 ELSE 4

RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Width(Head(s)) + Bytes(Tail(s))

\* number of characters in the first o bytes of s, -1 if o is inside a character or beyond s
RECURSIVE CharAt(_, _)
CharAt(s, o) ==
  IF o = 0 THEN 0
  ELSE IF s = <<>> \/ o < Width(Head(s)) THEN -1
  ELSE LET r == CharAt(Tail(s), o - Width(Head(s))) IN IF r < 0 THEN -1 ELSE r + 1

Slice(s, a, b) == SubSeq(s, CharAt(s, a) + 1, CharAt(s, b))

IsPrefixAt(p, s, i) == i + Len(p) <= Len(s) /\ SubSeq(s, i + 1, i + Len(p)) = p

Occurrences(p, s) == {i \in 0..(Len(s) - Len(p)) : IsPrefixAt(p, s, i)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

\* byte offset of the first and last occurrence, -1 if there is none
Find(p, s) == IF Occurrences(p, s) = {} THEN -1 ELSE Bytes(SubSeq(s, 1, Min(Occurrences(p, s))))
RFind(p, s) == IF Occurrences(p, s) = {} THEN -1 ELSE Bytes(SubSeq(s, 1, Max(Occurrences(p, s))))

White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
Trim(s) == LET K == {i \in 1..Len(s) : s[i] \notin White}
           IN IF K = {} THEN <<>> ELSE SubSeq(s, Min(K), Max(K))

\* lexicographic order: -1, 0, 1
RECURSIVE Cmp(_, _)
Cmp(s, t) == IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1)
             ELSE IF t = <<>> THEN 1
             ELSE IF Head(s) < Head(t) THEN -1
             ELSE IF Head(s) > Head(t) THEN 1
             ELSE Cmp(Tail(s), Tail(t))

-----------------------------------------------------------------------------
(* Ranges <<a, b>> with a <= b stand for the offsets a, ..., b - 1.        *)
IsRange(r) == r[1] <= r[2]
RLen(r) == r[2] - r[1]
REmpty(r) == RLen(r) = 0
Subrange(r, q) == q[1] <= r[1] /\ r[2] <= q[2]
\* two ranges are disjoint when one ends before, or where, the other starts
Disjoint(r, q) == r[2] <= q[1] \/ q[2] <= r[1]
Touches(r, o) == r[1] <= o /\ o <= r[2]
Glue(r, q) == IF r[2] = q[1] THEN <<r[1], q[2]>> ELSE <<>>
Shift(r, n) == <<r[1] + n, r[2] + n>>
\* -1 before, 0 equal, 1 after, 2 incomparable
Order(r, q) == IF r = q THEN 0 ELSE IF r[2] <= q[1] THEN -1 ELSE IF q[2] <= r[1] THEN 1 ELSE 2

\* the definitions agree with sets of offsets (checked by TLC for small ranges)
Set(r) == r[1]..(r[2] - 1)
Agree(M) ==
  LET R == {<<a, b>> \in (0..M) \X (0..M) : a <= b} IN
  \A r \in R :
    /\ RLen(r) = Cardinality(Set(r))
    /\ REmpty(r) <=> Set(r) = {}
    /\ \A q \in R :
         /\ Subrange(r, q) => Set(r) \subseteq Set(q)
         /\ (Set(r) # {} /\ Set(r) \subseteq Set(q)) => Subrange(r, q)
         /\ Disjoint(r, q) => Set(r) \cap Set(q) = {}
         /\ (Set(r) # {} /\ Set(q) # {} /\ Set(r) \cap Set(q) = {}) => Disjoint(r, q)
         /\ Glue(r, q) # <<>> => Set(Glue(r, q)) = Set(r) \cup Set(q)
         /\ Order(r, q) = (IF Order(q, r) = 2 THEN 2 ELSE -Order(q, r))
         /\ Order(r, q) = -1 => \A x \in Set(r), y \in Set(q) : x < y
         /\ (Order(r, q) = 0) <=> (r = q)
         /\ (Order(r, q) = 2) => Set(r) \cap Set(q) # {} \/ Set(r) = {} \/ Set(q) = {}
    /\ \A n \in 0..2 : Set(Shift(r, n)) = {x + n : x \in Set(r)}
=============================================================================
