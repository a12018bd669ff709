-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Reference semantics of lexing.                                          *)
(* A text is a sequence of characters [c |-> code point, b |-> bytes].     *)
(* A lexical rule is [ty, re, f]: a regular expression (index into the     *)
(* table of expressions R) and the name of a user-supplied function ("" if *)
(* there is none).  Expressions:                                           *)
(*   cls cs      one character whose code point lies in one of the ranges  *)
(*   seq es, alt es, star b, plus b, opt b                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

InCls(cs, c) == \E i \in 1..Len(cs) : cs[i][1] <= c /\ c <= cs[i][2]

\* all positions a match of expression e starting at p may end at
RECURSIVE Ends(_, _, _, _), SeqEnds(_, _, _, _), Closure(_, _, _, _, _)
Ends(R, e, T, p) ==
  LET x == R[e] IN
  CASE x.k = "cls" -> IF p <= Len(T) /\ InCls(x.cs, T[p].c) THEN {p + 1} ELSE {}
    [] x.k = "seq" -> SeqEnds(R, x.es, T, {p})
    [] x.k = "alt" -> UNION { Ends(R, x.es[i], T, p) : i \in 1..Len(x.es) }
    [] x.k = "opt" -> {p} \cup Ends(R, x.b, T, p)
    [] x.k = "star" -> Closure(R, x.b, T, {p}, {p})
    [] x.k = "plus" -> LET s == Ends(R, x.b, T, p) IN Closure(R, x.b, T, s, s)
SeqEnds(R, es, T, S) ==
  IF es = <<>> \/ S = {} THEN S
  ELSE SeqEnds(R, Tail(es), T, UNION { Ends(R, Head(es), T, q) : q \in S })
Closure(R, b, T, new, all) ==
  IF new = {} THEN all
  ELSE LET more == (UNION { Ends(R, b, T, q) : q \in new }) \ all
       IN Closure(R, b, T, more, all \cup more)

(* --- the user-supplied functions: end position, or 0 if they decline --- *)
QUOTE == 34  HASH == 35  STAR == 42  SLASH == 47  BANG == 33

RECURSIVE Find(_, _, _)
Find(T, p, c) == IF p > Len(T) THEN 0 ELSE IF T[p].c = c THEN p ELSE Find(T, p + 1, c)

RECURSIVE Closing(_, _, _)
Closing(T, p, n) == \* position after the first `"` followed by n `#`, from p on
  IF p > Len(T) THEN 0
  ELSE IF T[p].c = QUOTE /\ p + n <= Len(T) /\ \A i \in 1..n : T[p + i].c = HASH
       THEN p + n + 1
       ELSE Closing(T, p + 1, n)

RawString(T, p, limit) ==
  LET q == Find(T, p, QUOTE) IN
  IF q = 0 \/ q - p > limit THEN 0 ELSE Closing(T, q + 1, q - p - 1)

RECURSIVE Nested(_, _, _)
Nested(T, p, level) ==
  IF p > Len(T) \/ level = 0 THEN p
  ELSE IF p < Len(T) /\ T[p].c = SLASH /\ T[p + 1].c = STAR THEN Nested(T, p + 2, level + 1)
  ELSE IF p < Len(T) /\ T[p].c = STAR /\ T[p + 1].c = SLASH THEN Nested(T, p + 2, level - 1)
  ELSE Nested(T, p + 1, level)

RECURSIVE Call(_, _, _)
Call(f, T, p) ==
  CASE f = "parse_raw_string" -> RawString(T, p, 31)
    [] f = "parse_raw_string25" -> RawString(T, p, 25)
    [] f = "parse_block_comment" -> Nested(T, p + 2, 1)
    [] f = "until_bang" -> LET q == Find(T, p, BANG) IN IF q = 0 THEN 0 ELSE q + 1
    [] f = "grab_two" -> IF p + 2 <= Len(T) THEN p + 2 ELSE Len(T) + 1
    [] f = "decline" -> 0

(* --- tokens ------------------------------------------------------------ *)
\* the valid token at p: <<type, end>>, or <<>> if there is none
Valid(L, R, T, p) ==
  LET m == [i \in 1..Len(L) |-> LET s == Ends(R, L[i].re, T, p)
                                IN IF s = {} THEN 0 ELSE MaxOf(s)]
      best == IF Len(L) = 0 THEN 0 ELSE MaxOf({m[i] : i \in 1..Len(L)})
  IN IF best <= p THEN <<>>
     ELSE LET w == CHOOSE i \in 1..Len(L) : m[i] = best /\ \A j \in 1..(i - 1) : m[j] < best
              e == IF L[w].f = "" THEN best ELSE Call(L[w].f, T, p)
          IN IF e <= p THEN <<>> ELSE <<L[w].ty, e>>

\* the whole text: tokens <<type, start, end>> in characters; err is the type of error tokens
RECURSIVE LexFrom(_, _, _, _, _, _, _)
LexFrom(L, R, T, p, bad, err, acc) ==
  \* bad: where the current stretch without a valid token began (0: none)
  LET close == IF bad = 0 THEN acc ELSE Append(acc, <<err, bad, p>>) IN
  IF p > Len(T) THEN close
  ELSE LET v == Valid(L, R, T, p) IN
       IF v = <<>> THEN LexFrom(L, R, T, p + 1, IF bad = 0 THEN p ELSE bad, err, acc)
       ELSE LexFrom(L, R, T, v[2], 0, err, Append(close, <<v[1], p, v[2]>>))

Lex(L, R, T, err) == LexFrom(L, R, T, 1, 0, err, <<>>)

\* byte offset of every character position
ByteOffs(T) ==
  LET RECURSIVE S(_, _)
      S(i, acc) == IF i > Len(T) THEN acc ELSE S(i + 1, Append(acc, acc[i] + T[i].b))
  IN S(1, <<0>>)

InBytes(T, toks) ==
  LET B == ByteOffs(T) IN [i \in 1..Len(toks) |-> <<toks[i][1], B[toks[i][2]], B[toks[i][3]]>>]

(* --- the property ------------------------------------------------------ *)
\* tokens (in bytes) tile the text and none is empty
Tiles(T, toks) ==
  LET n == ByteOffs(T)[Len(T) + 1] IN
  /\ (toks = <<>>) <=> (n = 0)
  /\ toks # <<>> => toks[1][2] = 0 /\ toks[Len(toks)][3] = n
  /\ \A i \in 1..Len(toks) : toks[i][2] < toks[i][3]
  /\ \A i \in 1..(Len(toks) - 1) : toks[i][3] = toks[i + 1][2]

(* Leaves of a tree against the tokens: a contextual leaf (type in ctx) may *)
(* be made of several raw tokens or rename one.                            *)
RECURSIVE LeavesOk(_, _, _)
LeavesOk(leaves, toks, ctx) ==
  IF leaves = <<>> THEN toks = <<>>
  ELSE IF toks = <<>> THEN FALSE
  ELSE LET a == Head(leaves) t == Head(toks) IN
       /\ a[2] = t[2]
       /\ IF \E i \in 1..Len(ctx) : ctx[i] = a[1]
          THEN LET RECURSIVE Skip(_)
                   Skip(i) == IF i > Len(toks) THEN 0
                              ELSE IF toks[i][3] = a[3] THEN i
                              ELSE IF toks[i][3] > a[3] THEN 0 ELSE Skip(i + 1)
                   n == Skip(1)
               IN n > 0 /\ LeavesOk(Tail(leaves), SubSeq(toks, n + 1, Len(toks)), ctx)
          ELSE a = t /\ LeavesOk(Tail(leaves), Tail(toks), ctx)
=============================================================================
