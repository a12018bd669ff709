------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* For which grammar sources code can be generated: those in which nothing *)
(* that the generated code needs is missing or without meaning.  x: the    *)
(* syntax tree of a source, see module Sem.                                *)
(***************************************************************************)
EXTENDS Sem

\* the types nodes can have: every token and every public rule without a type of another
TypesOf(x) ==
  {Name(x, l) : l \in Range(LexRules(x))}
  \cup {Name(x, r) : r \in {q \in Range(Rules(x)) : Kid(x, q, "PUB") # 0 /\ Attr(x, q, "type") = 0 /\ Ident(x, q) # 0}}
MakesNode(x, r) == NodeTypeOf(x, r) # "" /\ NodeTypeOf(x, r) \in TypesOf(x)

IsContextual(x, l) == Attr(x, l, "contextual") # 0
Spelled(x, l) == FirstChar(Pattern(x, l)) = "'"
IsCommit(x, n) == Is(x, n, "CALL_EXPR") /\ Fn(x, n) = "commit"

RECURSIVE Means(_, _)
AllMean(x, ns) == \A i \in 1..Len(ns) : Means(x, ns[i])
Means(x, n) ==
  CASE Is(x, n, "REF_EXPR") ->
         LET r == Ref(x, n) IN
         /\ r # <<>>
         /\ r[1] = "token" /\ IsContextual(x, r[2]) => Spelled(x, r[2])
    [] Is(x, n, "CALL_EXPR") ->
         LET c == Call(x, n) IN
         /\ c # <<>>
         /\ CASE c[1] = "commit" -> FALSE                  \* only a part of a sequence can be one
              [] c[1] \in {"eof", "any", "is_in"} -> TRUE
              [] c[1] \in {"enter", "exit"} -> Means(x, c[3])
              [] c[1] = "rule" -> \A i \in 1..Len(c[3]) : Means(x, c[3][i][2])
              [] c[1] = "prev_is" -> \A i \in 1..Len(c[2]) : MakesNode(x, c[2][i])
              [] OTHER -> \A i \in 2..Len(c) : Means(x, c[i])
    [] Is(x, n, "SEQ_EXPR") ->
         LET parts == Exprs(x, n) IN \A i \in 1..Len(parts) : IsCommit(x, parts[i]) \/ Means(x, parts[i])
    [] OTHER -> AllMean(x, Exprs(x, n))

\* an alternative of an expression rule begins with the name of a public rule that says what it is
Operator(x, a) ==
  LET parts == Exprs(x, a)
      r == IF Is(x, a, "SEQ_EXPR") /\ parts # <<>> /\ Is(x, parts[1], "REF_EXPR") THEN Ref(x, parts[1]) ELSE <<>>
  IN /\ r # <<>> /\ r[1] = "rule"
     /\ MakesNode(x, r[2])
     /\ LET v == Pratt(x, r[2]).v IN v # <<>> /\ (v[1] # "atom" => Means(x, v[2]))

RuleMeans(x, r) ==
  /\ Body(x, r) # 0
  /\ Attr(x, r, "replaces") # 0 => MakesNode(x, r)
  /\ IF Attr(x, r, "pratt") # 0
     THEN LET alts == Exprs(x, Body(x, r)) IN \A i \in 1..Len(alts) : Operator(x, alts[i])
     ELSE Means(x, Body(x, r))

TokenMeans(x, l) == IsContextual(x, l) \/ Pattern(x, l) # ""

MethodMeans(x, m) ==
  LET k == Method(x, m) IN k # <<>> /\ (k[3] = "many" => k[1] = "node" /\ ~Is(x, k[2], "LEX_RULE"))
AstMeans(x) ==
  /\ \A d \in Range(InAst(x, "AST_NODE_DEF") \o InAst(x, "AST_CLASS_DEF") \o InAst(x, "AST_TRAIT_DEF")) : Ident(x, d) # 0
  /\ \A d \in Range(InAst(x, "AST_NODE_DEF") \o InAst(x, "AST_TRAIT_DEF")) :
       \A m \in Range(KidsOf(x, d, {"METHOD_DEF"})) : MethodMeans(x, m)

VerbatimMeans(x) ==
  LET v == Kid(x, 1, "VERBATIM_DEF") IN v # 0 => Kid(x, v, "HASH_STRING") # 0

Generable(x) ==
  /\ Tokenizer(x) # 0
  /\ \A l \in Range(LexRules(x)) : TokenMeans(x, l)
  /\ \A r \in Range(Rules(x)) : RuleMeans(x, r)
  /\ VerbatimMeans(x)
  /\ AstMeans(x)
=============================================================================
