-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Concrete trees and the queries on them.  A tree is a sequence of nodes  *)
(* <<type, start, end, parent, children>>; a node's number is its place in *)
(* preorder, the root is 1 and has parent 0.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ty(T, n) == T[n][1]
From(T, n) == T[n][2]
To(T, n) == T[n][3]
Parent(T, n) == T[n][4]
Kids(T, n) == T[n][5]
Span(T, n) == <<From(T, n), To(T, n)>>
IsEmpty(T, n) == From(T, n) = To(T, n)
IsLeaf(T, n) == Kids(T, n) = <<>> /\ ~IsEmpty(T, n)

Range(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

\* links agree and every internal node spans exactly its adjacent children
WellFormed(T, len) ==
  /\ Len(T) > 0 /\ Parent(T, 1) = 0 /\ From(T, 1) = 0 /\ To(T, 1) = len
  /\ \A n \in 1..Len(T) :
       LET K == Kids(T, n) IN
       /\ \A i \in 1..Len(K) : K[i] > n /\ K[i] <= Len(T) /\ Parent(T, K[i]) = n
       /\ \A i \in 1..(Len(K) - 1) : K[i] < K[i + 1] /\ To(T, K[i]) = From(T, K[i + 1])
       /\ K # <<>> => From(T, K[1]) = From(T, n) /\ To(T, Last(K)) = To(T, n)
       /\ n > 1 => Parent(T, n) \in 1..(n - 1) /\ n \in Range(Kids(T, Parent(T, n)))

RECURSIVE Ancestors(_, _)
Ancestors(T, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Ancestors(T, Parent(T, n))

Under(T, n) == {m \in 1..Len(T) : n \in Range(Ancestors(T, m))}

\* children before parents, siblings in order
RECURSIVE PostOrder(_, _), PostAll(_, _)
PostOrder(T, n) == PostAll(T, Kids(T, n)) \o <<n>>
PostAll(T, K) == IF K = <<>> THEN <<>> ELSE PostOrder(T, Head(K)) \o PostAll(T, Tail(K))

RECURSIVE PreOrder(_, _), PreAll(_, _)
PreOrder(T, n) == <<n>> \o PreAll(T, Kids(T, n))
PreAll(T, K) == IF K = <<>> THEN <<>> ELSE PreOrder(T, Head(K)) \o PreAll(T, Tail(K))

OfType(T, s, tys) == SelectSeq(s, LAMBDA n : Ty(T, n) \in tys)
FirstOr0(s) == IF s = <<>> THEN 0 ELSE s[1]
LastOr0(s) == IF s = <<>> THEN 0 ELSE Last(s)

Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
LeftSibling(T, n) ==
  IF Parent(T, n) = 0 THEN 0
  ELSE LET K == Kids(T, Parent(T, n))  i == Index(K, n) IN IF i = 1 THEN 0 ELSE K[i - 1]
RightSibling(T, n) ==
  IF Parent(T, n) = 0 THEN 0
  ELSE LET K == Kids(T, Parent(T, n))  i == Index(K, n) IN IF i = Len(K) THEN 0 ELSE K[i + 1]

\* the non-empty leaves under n that contain the offset or touch it, left to right
LeavesAt(T, n, o) ==
  SelectSeq(PreOrder(T, n), LAMBDA m : IsLeaf(T, m) /\ From(T, m) <= o /\ o <= To(T, m))

\* lowest node that is an ancestor of both (a node is its own ancestor)
Common(T, a, b) == Max0(Range(Ancestors(T, a)) \cap Range(Ancestors(T, b)))

Covering(T, r) ==
  LET l == LastOr0(LeavesAt(T, 1, r[1]))
      h == FirstOr0(LeavesAt(T, 1, r[2]))
  IN IF l = 0 \/ h = 0 THEN 1 ELSE Common(T, l, h)

-----------------------------------------------------------------------------
(* Extending a selection.  text is the sequence of code points by byte     *)
(* offset (offset o is text[o+1]); white(n) says whether n is whitespace.  *)
NL == 10
RECURSIVE NextNl(_, _)
NextNl(text, o) == IF o >= Len(text) THEN -1 ELSE IF text[o + 1] = NL THEN o ELSE NextNl(text, o + 1)
HasNl(text, a, b) == \E o \in a..(b - 1) : text[o + 1] = NL

RECURSIVE Widen(_, _, _)
Widen(T, n, r) == IF n = 0 THEN <<>> ELSE IF Span(T, n) = r THEN Widen(T, Parent(T, n), r) ELSE Span(T, n)

Extend(T, text, wsTypes, r) ==
  IF r[1] < r[2] THEN Widen(T, Covering(T, r), r)
  ELSE LET ls == LeavesAt(T, 1, r[1])
           solid == SelectSeq(ls, LAMBDA n : Ty(T, n) \notin wsTypes)
       IN IF solid # <<>> THEN Span(T, solid[1])
          ELSE IF ls = <<>> THEN <<>>
          ELSE LET w == ls[1]
                   nl == NextNl(text, To(T, w))
               IN IF /\ HasNl(text, From(T, w), To(T, w))
                     /\ ~HasNl(text, r[1], To(T, w))
                     /\ nl # -1
                  \* in the indentation of a line: what the rest of the line belongs to
                  THEN Span(T, Covering(T, <<To(T, w), nl>>))
                  ELSE Span(T, w)

\* what users rely on, for any selection that is not empty
ExtendSound(T, len, r, e) ==
  r[1] < r[2] =>
    IF e = <<>> THEN r = <<0, len>>
    ELSE /\ e[1] <= r[1] /\ r[2] <= e[2] /\ e # r
         /\ \E n \in 1..Len(T) : Span(T, n) = e
=============================================================================
