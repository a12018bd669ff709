------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* Reference semantics of fall's parser engine, at the level of syntax     *)
(* forests.  A grammar is a sequence of expression records, references are *)
(* 1-based.  The input is the sequence of significant tokens; positions    *)
(* run from 1 to Len(I)+1 and a parse never looks at or past `end`, which  *)
(* layers move.                                                            *)
(*                                                                         *)
(* Expressions (field k):                                                  *)
(*   pub      ty b repl      node of type ty around b                      *)
(*   pubrep   ty b           no node; tells the enclosing replaceable node *)
(*                           to take type ty                               *)
(*   or       es             ordered choice                                *)
(*   and      es c           sequence, commit point after c parts          *)
(*   tok      ty             one token of that type                        *)
(*   ctok     ty txt         contextual token: spelling txt                *)
(*   rep, opt, not  b        greedy repetition, option, negative lookahead *)
(*   eof, any                                                              *)
(*   layer    a b            extent a, contents b                          *)
(*   skip     a b            skip tokens until a is seen and b matches     *)
(*   pratt    atoms pre inf  operator table                                *)
(*   enter, exit  ctx b ; isin ctx                                         *)
(*   call     b args ; var v                                               *)
(*   prev     tys                                                          *)
(*   inject   a b ; cached b                                               *)
(*                                                                         *)
(* Items of a forest are uniform records                                   *)
(*   [ty, i, n, kids, w]                                                   *)
(* a token (n >= 1 significant tokens from index i, shown as one leaf of   *)
(* type ty) or a node (n = 0).  w marks nodes wrapped around an already    *)
(* completed first child (operators, injection): an injected prefix goes   *)
(* to the node that *started* first, i.e. below such wrappers.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

ERR == 0            \* type of error nodes and error tokens

\* The parse-wide memory: last completed node, pending replacement; and, for Reuse, the number of
\* evaluation steps, what is kept of an earlier parse, and the completed cached expressions.
NoSt == [prev |-> -1, repl |-> -1, n |-> 0, keep |-> {}, log |-> <<>>]

TokItem(ty, i, n) == [ty |-> ty, i |-> i, n |-> n, kids |-> <<>>, w |-> FALSE]
NodeItem(ty, kids) == [ty |-> ty, i |-> 0, n |-> 0, kids |-> kids, w |-> FALSE]
WrapItem(ty, kids) == [ty |-> ty, i |-> 0, n |-> 0, kids |-> kids, w |-> TRUE]

Fail(st) == [ok |-> FALSE, p |-> 0, f |-> <<>>, st |-> st]
Ok(p, f, st) == [ok |-> TRUE, p |-> p, f |-> f, st |-> st]

\* the tokens from p up to e as leaves
RawItems(I, p, e) == [j \in 1..(e - p) |-> TokItem(I[p + j - 1].ty, p + j - 1, 1)]
ErrNode(I, p, e) == NodeItem(ERR, RawItems(I, p, e))

\* how many tokens, from p, spell out txt exactly (0: they do not)
RECURSIVE Spelled(_, _, _, _, _)
Spelled(I, p, end, txt, acc) ==
  IF p >= end THEN 0
  ELSE LET t == acc \o I[p].txt IN
       IF t = txt THEN p + 1
       ELSE IF Len(t) < Len(txt) /\ p + 1 < end /\ I[p + 1].idx = I[p].idx + 1
            THEN Spelled(I, p + 1, end, txt, t)
            ELSE 0

\* attach an injected prefix to the node that starts the forest f
RECURSIVE InjectInto(_, _)
InjectInto(node, pre) ==
  IF node.w
  THEN [node EXCEPT !.kids = <<InjectInto(Head(node.kids), pre)>> \o Tail(node.kids)]
  ELSE WrapItem(node.ty, pre \o node.kids)

RECURSIVE P(_, _, _, _, _, _, _, _), OrP(_, _, _, _, _, _, _, _), AndP(_, _, _, _, _, _, _, _, _, _),
          RepP(_, _, _, _, _, _, _, _, _), SkipP(_, _, _, _, _, _, _, _, _),
          PrattGo(_, _, _, _, _, _, _, _, _), PrattPre(_, _, _, _, _, _, _, _, _),
          PrattLoop(_, _, _, _, _, _, _, _, _, _), TryInfix(_, _, _, _, _, _, _, _, _, _, _)

\* G grammar, I tokens, e expression, p position, end limit, ctx set of active contexts, args
\* binding of parameters (an argument is an expression and the binding in force where the call
\* stands), st the parse-wide memory (last completed node, pending replacement), never rolled back.
P(G, I, e, p, end, ctx, args, st0) ==
  LET x == G[e]
      st == [st0 EXCEPT !.n = @ + 1] IN
  CASE x.k = "pub" ->
         LET r == P(G, I, x.b, p, end, ctx, args,
                    IF x.repl THEN [st EXCEPT !.repl = -1] ELSE st)
         IN IF ~r.ok THEN r
            ELSE LET swap == x.repl /\ r.st.repl # -1
                     ty == IF swap THEN r.st.repl ELSE x.ty
                 IN Ok(r.p, <<NodeItem(ty, r.f)>>,
                       [r.st EXCEPT !.prev = x.ty, !.repl = IF swap THEN -1 ELSE @])
    [] x.k = "tok" ->
         IF p < end /\ I[p].ty = x.ty THEN Ok(p + 1, <<TokItem(x.ty, p, 1)>>, st) ELSE Fail(st)
    [] x.k = "or" -> OrP(G, I, x.es, p, end, ctx, args, st)
    [] x.k = "and" -> AndP(G, I, x.es, x.c, 1, p, end, ctx, args, [f |-> <<>>, st |-> st])
    [] x.k = "rep" -> RepP(G, I, x.b, p, end, ctx, args, st, <<>>)
    [] x.k = "opt" ->
         LET r == P(G, I, x.b, p, end, ctx, args, st)
         IN IF r.ok THEN r ELSE Ok(p, <<>>, r.st)
    [] x.k = "not" ->
         LET r == P(G, I, x.b, p, end, ctx, args, st)
         IN IF r.ok THEN Fail(r.st) ELSE Ok(p, <<>>, r.st)
    [] x.k = "ctok" ->
         LET q == Spelled(I, p, end, x.txt, SubSeq(x.txt, 1, 0))
         IN IF q = 0 THEN Fail(st) ELSE Ok(q, <<TokItem(x.ty, p, q - p)>>, st)
    [] x.k = "eof" -> IF p = end THEN Ok(p, <<>>, st) ELSE Fail(st)
    [] x.k = "any" -> IF p < end THEN Ok(p + 1, <<TokItem(I[p].ty, p, 1)>>, st) ELSE Fail(st)
    [] x.k = "layer" ->
         LET ext == P(G, I, x.a, p, end, ctx, args, st)
         IN IF ~ext.ok THEN Fail(ext.st)
            ELSE LET r == P(G, I, x.b, p, ext.p, ctx, args, ext.st)
                     q == IF r.ok THEN r.p ELSE p
                     f == IF r.ok THEN r.f ELSE <<>>
                 IN Ok(ext.p, IF q < ext.p THEN Append(f, ErrNode(I, q, ext.p)) ELSE f, r.st)
    [] x.k = "skip" -> SkipP(G, I, x, p, p, end, ctx, args, st)
    [] x.k = "pratt" -> PrattGo(G, I, x, 0, p, end, ctx, args, st)
    [] x.k = "enter" -> P(G, I, x.b, p, end, ctx \cup {x.ctx}, args, st)
    [] x.k = "exit" -> P(G, I, x.b, p, end, ctx \ {x.ctx}, args, st)
    [] x.k = "isin" -> IF x.ctx \in ctx THEN Ok(p, <<>>, st) ELSE Fail(st)
    [] x.k = "call" ->
         LET RECURSIVE Bind(_, _)
             Bind(as, j) ==
               IF j > Len(x.args) THEN as
               ELSE LET a == x.args[j]   \* <<parameter, expression>>
                        v == IF G[a[2]].k = "var" THEN args[G[a[2]].v] ELSE [e |-> a[2], env |-> args]
                    IN Bind(([q \in {a[1]} |-> v]) @@ as, j + 1)
         IN P(G, I, x.b, p, end, ctx, Bind(args, 1), st)
    [] x.k = "var" -> P(G, I, args[x.v].e, p, end, ctx, args[x.v].env, st)
    [] x.k = "prev" ->
         IF \E j \in 1..Len(x.tys) : x.tys[j] = st.prev THEN Ok(p, <<>>, st) ELSE Fail(st)
    [] x.k = "inject" ->
         LET pre == P(G, I, x.a, p, end, ctx, args, st)
         IN IF ~pre.ok THEN Fail(pre.st)
            ELSE LET r == P(G, I, x.b, pre.p, end, ctx, args, pre.st)
                 IN IF ~r.ok THEN r
                    ELSE IF pre.p = p THEN Ok(r.p, pre.f \o r.f, r.st)
                    ELSE Ok(r.p, <<InjectInto(Head(r.f), pre.f)>> \o Tail(r.f), r.st)
    [] x.k = "cached" ->
         LET r == P(G, I, x.b, p, end, ctx, args, st)
             n == IF <<x.b, p>> \in st.keep THEN st.n ELSE r.st.n
         IN IF ~r.ok THEN r
            ELSE [r EXCEPT !.st.n = n, !.st.log = Append(@, [e |-> x.b, p |-> p, q |-> r.p, f |-> r.f])]
    [] x.k = "pubrep" ->
         LET r == P(G, I, x.b, p, end, ctx, args, st)
         IN IF r.ok THEN [r EXCEPT !.st.repl = x.ty] ELSE r

OrP(G, I, es, p, end, ctx, args, st) ==
  IF es = <<>> THEN Fail(st)
  ELSE LET r == P(G, I, Head(es), p, end, ctx, args, st)
       IN IF r.ok THEN r ELSE OrP(G, I, Tail(es), p, end, ctx, args, r.st)

\* j: next part; c: number of parts after which the sequence is committed
AndP(G, I, es, c, j, p, end, ctx, args, acc) ==
  IF j > Len(es) THEN Ok(p, acc.f, acc.st)
  ELSE LET r == P(G, I, es[j], p, end, ctx, args, acc.st)
       IN IF r.ok THEN AndP(G, I, es, c, j + 1, r.p, end, ctx, args, [f |-> acc.f \o r.f, st |-> r.st])
          ELSE IF j - 1 < c THEN Fail(r.st)
          ELSE Ok(p, Append(acc.f, NodeItem(ERR, <<>>)), r.st)

RepP(G, I, b, p, end, ctx, args, st, f) ==
  LET r == P(G, I, b, p, end, ctx, args, st)
  IN IF ~r.ok THEN Ok(p, f, r.st)
     ELSE RepP(G, I, b, r.p, end, ctx, args, r.st, f \o r.f)

\* s: where skipping began, p: current position
SkipP(G, I, x, s, p, end, ctx, args, st) ==
  LET a == P(G, I, x.a, p, end, ctx, args, st)
      r == IF a.ok THEN P(G, I, x.b, p, end, ctx, args, a.st) ELSE Fail(a.st)
  IN IF r.ok THEN Ok(r.p, (IF p > s THEN <<ErrNode(I, s, p)>> ELSE <<>>) \o r.f, r.st)
     ELSE IF p >= end THEN Fail(r.st)
     ELSE SkipP(G, I, x, s, p + 1, end, ctx, args, r.st)

\* operator precedence climbing
PrattGo(G, I, x, min, p, end, ctx, args, st) ==
  LET a == OrP(G, I, x.atoms, p, end, ctx, args, st)
      l == IF a.ok THEN a ELSE PrattPre(G, I, x, 1, p, end, ctx, args, a.st)
  IN IF ~l.ok THEN l
     ELSE PrattLoop(G, I, x, min, l.p, end, ctx, args, l.st, l.f)

PrattPre(G, I, x, j, p, end, ctx, args, st) ==
  IF j > Len(x.pre) THEN Fail(st)
  ELSE LET o == x.pre[j]
           r == P(G, I, o.op, p, end, ctx, args, st)
           q == IF r.ok THEN PrattGo(G, I, x, o.prior, r.p, end, ctx, args, r.st) ELSE r
       IN IF q.ok THEN Ok(q.p, <<NodeItem(o.ty, r.f \o q.f)>>, [q.st EXCEPT !.prev = o.ty])
          ELSE PrattPre(G, I, x, j + 1, p, end, ctx, args, q.st)

PrattLoop(G, I, x, min, p, end, ctx, args, st, lhs) ==
  LET t == TryInfix(G, I, x, min, 1, p, end, ctx, args, st, lhs)
  IN IF t.ok THEN PrattLoop(G, I, x, min, t.p, end, ctx, args, t.st, t.f)
     ELSE Ok(p, lhs, t.st)

TryInfix(G, I, x, min, j, p, end, ctx, args, st, lhs) ==
  IF j > Len(x.inf) THEN Fail(st)
  ELSE LET o == x.inf[j] IN
       IF o.prior < min THEN TryInfix(G, I, x, min, j + 1, p, end, ctx, args, st, lhs)
       ELSE LET r == P(G, I, o.op, p, end, ctx, args, st) IN
            IF ~r.ok THEN TryInfix(G, I, x, min, j + 1, p, end, ctx, args, r.st, lhs)
            ELSE LET q == IF o.rhs THEN PrattGo(G, I, x, o.prior + 1, r.p, end, ctx, args, r.st)
                          ELSE Ok(r.p, <<>>, r.st)
                     rhs == IF q.ok THEN q.f ELSE <<NodeItem(ERR, <<>>)>>
                 IN Ok(IF q.ok THEN q.p ELSE r.p,
                       <<WrapItem(o.ty, lhs \o r.f \o rhs)>>,
                       [q.st EXCEPT !.prev = o.ty])

NoArgs == [q \in {} |-> 0]

(* The root: what the start rule (expression 1, a pub) does not consume is *)
(* one error node at the end of the root; if the start rule does not match *)
(* at all everything is.                                                   *)
ParseRoot(G, I) ==
  LET r == P(G, I, 1, 1, Len(I) + 1, {}, NoArgs, NoSt)
      rest(p) == IF p <= Len(I) THEN <<ErrNode(I, p, Len(I) + 1)>> ELSE <<>>
  IN IF r.ok THEN [r.f[1] EXCEPT !.kids = @ \o rest(r.p)]
     ELSE NodeItem(G[1].ty, rest(1))
=============================================================================
