--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The meaning of a grammar source: from the abstract syntax of a .fall    *)
(* file to the expression table of module Engine and the rules of module   *)
(* Lexer.  F is a record                                                   *)
(*   toks   <<[n, u, q, ctx, skip, f, txt, re]>>   tokens in source order: *)
(*          name, name in capitals, quoted spelling ("" if the pattern is  *)
(*          a regular expression), attributes, function, spelling, index   *)
(*          of the expression in res                                       *)
(*   rules  <<[n, u, pub, at, ps, b]>>  at: <<[n, v, num]>> attributes,    *)
(*          v, num: <<>> or one value; ps: parameter names; b: body        *)
(*   ex     <<expressions>>, r: the rule they stand in                     *)
(*          block es / seq es / ref t / call fn es / opt b / rep b         *)
(*   res    regular expressions                                            *)
(* Rule i is entry i of the table, expression j entry Len(rules) + j.      *)
(***************************************************************************)
EXTENDS Engine

HasAt(r, a) == \E i \in 1..Len(r.at) : r.at[i].n = a
AtOf(r, a) == r.at[CHOOSE i \in 1..Len(r.at) : r.at[i].n = a /\ \A j \in 1..(i - 1) : r.at[j].n # a]

\* ---- node types: the tokens in order, then the public rules without a type of another
RECURSIVE PubNames(_, _)
PubNames(rs, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE (IF rs[i].pub /\ ~HasAt(rs[i], "type") THEN <<[n |-> rs[i].n, u |-> rs[i].u]>> ELSE <<>>) \o PubNames(rs, i + 1)
TypeNames(F) == [i \in 1..Len(F.toks) |-> [n |-> F.toks[i].n, u |-> F.toks[i].u]] \o PubNames(F.rules, 1)

NameOf(NT, ty) == IF ty = 0 THEN "ERROR" ELSE NT[ty].u
TypeByName(NT, n) ==
  IF \E i \in 1..Len(NT) : NT[i].n = n
  THEN CHOOSE i \in 1..Len(NT) : NT[i].n = n /\ \A j \in 1..(i - 1) : NT[j].n # n
  ELSE 0

\* the type a rule gives its node, 0 if it makes none
RuleTy(F, NT, i) ==
  LET r == F.rules[i] IN
  IF ~r.pub \/ HasAt(r, "pratt") THEN 0
  ELSE IF HasAt(r, "type") THEN TypeByName(NT, AtOf(r, "type").v[1])
  ELSE TypeByName(NT, r.n)

\* ---- names: parameters of the rule around, then rules, then tokens by spelling or name
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
TokName(t) == IF t.q # "" THEN t.q ELSE t.n
Resolve(F, ri, t) ==
  LET ps == F.rules[ri].ps
      P1 == {i \in 1..Len(ps) : ps[i] = t}
      R1 == {i \in 1..Len(F.rules) : F.rules[i].n = t}
      T1 == {i \in 1..Len(F.toks) : TokName(F.toks[i]) = t}
  IN IF P1 # {} THEN [k |-> "param", i |-> Min(P1)]
     ELSE IF R1 # {} THEN [k |-> "rule", i |-> Min(R1)]
     ELSE IF T1 # {} THEN [k |-> "tok", i |-> Max(T1)]
     ELSE [k |-> "none", i |-> 0]

ParamNo(ri, i) == ri * 100 + i
IsCommit(x) == x.k = "call" /\ x.fn = "commit"
Builtins == {"any", "commit", "eof", "not", "is_in", "layer", "with_skip", "inject", "enter", "exit", "prev_is"}

RECURSIVE Filter(_, _)
Filter(F, es) == IF es = <<>> THEN <<>>
                 ELSE (IF IsCommit(F.ex[Head(es)]) THEN <<>> ELSE <<Head(es)>>) \o Filter(F, Tail(es))
CommitAt(F, es) == LET C == {i \in 1..Len(es) : IsCommit(F.ex[es[i]])}
                   IN IF C = {} THEN Len(es) ELSE Min(C) - 1

\* ---- operator tables
Kinds == <<"atom", "postfix", "prefix", "bin">>
KindOf(r) == LET K == {i \in 1..4 : HasAt(r, Kinds[i])} IN IF K = {} THEN "none" ELSE Kinds[Min(K)]
Prior(r, k) == LET a == AtOf(r, k) IN IF a.num = <<>> THEN 999 ELSE a.num[1]
Parts(F, r) == F.ex[F.ex[r.b].es[1]].es        \* of the only alternative

Pratt(F, NT, off, b) ==
  LET alts == F.ex[b].es
      ruleOf(j) == Resolve(F, F.ex[b].r, F.ex[F.ex[alts[j]].es[1]].t).i
      kind(j) == KindOf(F.rules[ruleOf(j)])
      RECURSIVE Go(_, _)
      Go(j, acc) ==
        IF j > Len(alts) THEN acc
        ELSE LET i == ruleOf(j)
                 r == F.rules[i]
                 ty == RuleTy(F, NT, i)
             IN Go(j + 1,
                  CASE kind(j) = "atom" -> [acc EXCEPT !.atoms = Append(@, i)]
                    [] kind(j) = "prefix" -> [acc EXCEPT !.pre = Append(@, [ty |-> ty, op |-> off + Parts(F, r)[1], prior |-> Prior(r, "prefix")])]
                    [] kind(j) = "postfix" -> [acc EXCEPT !.inf = Append(@, [ty |-> ty, op |-> off + Parts(F, r)[2], prior |-> Prior(r, "postfix"), rhs |-> FALSE])]
                    [] kind(j) = "bin" -> [acc EXCEPT !.inf = Append(@, [ty |-> ty, op |-> off + Parts(F, r)[2], prior |-> Prior(r, "bin"), rhs |-> TRUE])])
  IN Go(1, [k |-> "pratt", atoms |-> <<>>, pre |-> <<>>, inf |-> <<>>])

\* ---- expressions
Ctx(F, e) == F.ex[e].t      \* the name of a context, quotes and all

Expr(F, NT, off, j) ==
  LET x == F.ex[j] IN
  CASE x.k = "block" -> [k |-> "or", es |-> [i \in 1..Len(x.es) |-> off + x.es[i]]]
    [] x.k = "seq" -> LET es == Filter(F, x.es)
                      IN [k |-> "and", es |-> [i \in 1..Len(es) |-> off + es[i]], c |-> CommitAt(F, x.es)]
    [] x.k \in {"opt", "rep"} -> [k |-> x.k, b |-> off + x.b]
    [] x.k = "ref" ->
         LET d == Resolve(F, x.r, x.t) IN
         CASE d.k = "param" -> [k |-> "var", v |-> ParamNo(x.r, d.i)]
           [] d.k = "rule" -> [k |-> "or", es |-> <<d.i>>]
           [] d.k = "tok" -> IF F.toks[d.i].ctx THEN [k |-> "ctok", ty |-> d.i, txt |-> F.toks[d.i].txt]
                             ELSE [k |-> "tok", ty |-> d.i]
           [] OTHER -> [k |-> "none"]
    [] x.k = "call" ->
         LET a == x.es IN
         CASE x.fn \in {"eof", "any"} -> [k |-> x.fn]
           [] x.fn = "commit" -> [k |-> "none"]
           [] x.fn = "not" -> [k |-> "not", b |-> off + a[1]]
           [] x.fn = "layer" -> [k |-> "layer", a |-> off + a[1], b |-> off + a[2]]
           [] x.fn = "with_skip" -> [k |-> "skip", a |-> off + a[1], b |-> off + a[2]]
           [] x.fn = "inject" -> [k |-> "inject", a |-> off + a[1], b |-> off + a[2]]
           [] x.fn \in {"enter", "exit"} -> [k |-> x.fn, ctx |-> Ctx(F, a[1]), b |-> off + a[2]]
           [] x.fn = "is_in" -> [k |-> "isin", ctx |-> Ctx(F, a[1])]
           [] x.fn = "prev_is" -> [k |-> "prev", tys |-> [i \in 1..Len(a) |-> RuleTy(F, NT, Resolve(F, x.r, F.ex[a[i]].t).i)]]
           [] OTHER -> LET i == Resolve(F, x.r, x.fn).i
                           callee == Min({q \in 1..Len(F.rules) : F.rules[q].n = x.fn})
                       IN [k |-> "call", b |-> callee, args |-> [q \in 1..Len(a) |-> <<ParamNo(callee, q), off + a[q]>>]]

Rule(F, NT, off, i) ==
  LET r == F.rules[i]
      ty == RuleTy(F, NT, i)
      body == off + r.b
  IN IF HasAt(r, "pratt") THEN Pratt(F, NT, off, r.b)
     ELSE IF ty # 0 /\ HasAt(r, "replaces") THEN [k |-> "pubrep", ty |-> ty, b |-> body]
     ELSE IF ty # 0 THEN [k |-> "pub", ty |-> ty, b |-> body, repl |-> HasAt(r, "replaceable")]
     ELSE [k |-> "or", es |-> <<body>>]

Meaning(F) ==
  LET n == Len(F.rules)
      NT == TypeNames(F)
  IN [i \in 1..(n + Len(F.ex)) |-> IF i <= n THEN Rule(F, NT, n, i) ELSE Expr(F, NT, n, i - n)]

\* ---- lexical rules: everything but the contextual tokens, in order
RECURSIVE LexRules(_, _)
LexRules(F, i) ==
  IF i > Len(F.toks) THEN <<>>
  ELSE (IF F.toks[i].ctx THEN <<>> ELSE <<[ty |-> i, re |-> F.toks[i].re, f |-> F.toks[i].f]>>) \o LexRules(F, i + 1)
=============================================================================
