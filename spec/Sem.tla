-------------------------------- MODULE Sem --------------------------------
(***************************************************************************)
(* Static semantics of grammar sources: what names denote, what calls and  *)
(* operator declarations mean, which problems a source has, where a        *)
(* definition is used, what the outline and the highlighting show.         *)
(* x.nodes is the tree (see Tree), x.txt the text of every leaf.           *)
(* An answer is a sequence whose first element names its kind; <<>> means  *)
(* there is none.                                                          *)
(***************************************************************************)
EXTENDS Tree, TLC

T(x) == x.nodes
Txt(x, n) == x.txt[n]
Is(x, n, ty) == Ty(T(x), n) = ty
KidsOf(x, n, tys) == OfType(T(x), Kids(T(x), n), tys)
Kid(x, n, ty) == FirstOr0(KidsOf(x, n, {ty}))
All(x, tys) == SelectSeq([i \in 1..Len(T(x)) |-> i], LAMBDA n : Ty(T(x), n) \in tys)
Some0(n) == n # 0
FirstChar(s) == IF Len(s) = 0 THEN "" ELSE SubSeq(s, 1, 1)

ExprTypes == {"REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"}
Exprs(x, n) == KidsOf(x, n, ExprTypes)

Ident(x, n) == Kid(x, n, "IDENT")
Name(x, n) == Txt(x, Ident(x, n))              \* of something that has one
Named(x, n, s) == Ident(x, n) # 0 /\ Name(x, n) = s

RECURSIVE Find(_, _, _)
Find(x, ns, s) == IF ns = <<>> THEN 0 ELSE IF Named(x, Head(ns), s) THEN Head(ns) ELSE Find(x, Tail(ns), s)

RECURSIVE Up(_, _, _)
Up(x, n, ty) == IF n = 0 THEN 0 ELSE IF Is(x, n, ty) THEN n ELSE Up(x, Parent(T(x), n), ty)

-----------------------------------------------------------------------------
(* Definitions *)
Rules(x) == KidsOf(x, 1, {"SYN_RULE"})
RuleFor(x, s) == Find(x, Rules(x), s)          \* the first of that name

Tokenizer(x) == Kid(x, 1, "TOKENIZER_DEF")
LexRules(x) == IF Tokenizer(x) = 0 THEN <<>> ELSE KidsOf(x, Tokenizer(x), {"LEX_RULE"})

Pattern(x, l) ==       \* the literal of a token rule, "" if it is missing
  LET s == Kid(x, l, "STRING") IN
  IF s = 0 THEN "" ELSE Txt(x, FirstOr0(KidsOf(x, s, {"SIMPLE_STRING", "HASH_STRING"})))
\* a token with a quoted spelling is referred to by that spelling, others by name
TokenRef(x, l) == IF FirstChar(Pattern(x, l)) = "'" THEN Pattern(x, l) ELSE Name(x, l)
TokenFor(x, s) == LastOr0(SelectSeq(LexRules(x), LAMBDA l : TokenRef(x, l) = s))

Params(x, r) ==
  LET p == Kid(x, r, "PARAMETERS") IN IF p = 0 THEN <<>> ELSE KidsOf(x, p, {"PARAMETER"})
HasParams(x, r) == Kid(x, r, "PARAMETERS") # 0

Attrs(x, d) ==
  LET a == Kid(x, d, "ATTRIBUTES") IN IF a = 0 THEN <<>> ELSE KidsOf(x, a, {"ATTRIBUTE"})
Attr(x, d, s) == Find(x, Attrs(x, d), s)
AttrValue(x, a) ==     \* its text, "" if there is none
  LET v == Kid(x, a, "ATTRIBUTE_VALUE") IN
  IF v = 0 THEN "" ELSE Txt(x, FirstOr0(KidsOf(x, v, {"NUMBER", "IDENT"})))

\* the type of the nodes a rule makes, "" if it makes none
NodeTypeOf(x, r) ==
  IF Kid(x, r, "PUB") = 0 \/ Attr(x, r, "pratt") # 0 THEN ""
  ELSE IF Attr(x, r, "type") # 0 THEN AttrValue(x, Attr(x, r, "type"))
  ELSE IF Ident(x, r) # 0 THEN Name(x, r) ELSE ""

AstDef(x) == Kid(x, 1, "AST_DEF")
InAst(x, ty) == IF AstDef(x) = 0 THEN <<>> ELSE KidsOf(x, AstDef(x), {ty})

-----------------------------------------------------------------------------
(* References and calls *)
Fn(x, c) == Name(x, c)
Args(x, c) == Exprs(x, c)
\* the context a call names, 0 if it does not: the quoted first argument
ContextLeaf(x, c) ==
  IF Fn(x, c) \in {"enter", "exit", "is_in"} /\ Args(x, c) # <<>>
  THEN Kid(x, Args(x, c)[1], "SIMPLE_STRING") ELSE 0
ContextName(x, c) == LET s == Txt(x, ContextLeaf(x, c)) IN SubSeq(s, 2, Len(s) - 1)

RefName(x, n) == LET i == Ident(x, n) IN Txt(x, IF i # 0 THEN i ELSE Kid(x, n, "SIMPLE_STRING"))

Ref(x, n) ==
  LET s == RefName(x, n)
      p == Find(x, Params(x, Up(x, n, "SYN_RULE")), s)
  IN IF p # 0 THEN <<"param", p>>
     ELSE IF RuleFor(x, s) # 0 THEN <<"rule", RuleFor(x, s)>>
     ELSE IF TokenFor(x, s) # 0 THEN <<"token", TokenFor(x, s)>>
     ELSE <<>>

NamesContext(x, n) ==
  LET c == Parent(T(x), n) IN
  Is(x, c, "CALL_EXPR") /\ ContextLeaf(x, c) # 0 /\ Args(x, c)[1] = n

\* built-in calls: number of arguments they need, number of leading arguments kept as expressions
Arity == [eof |-> 0, any |-> 0, commit |-> 0, not |-> 1, is_in |-> 1, layer |-> 2, with_skip |-> 2,
          inject |-> 2, enter |-> 2, exit |-> 2]
Builtin(s) == s \in DOMAIN Arity

PubArg(x, a) ==        \* the public rule an argument of prev_is names, 0 if it does not
  IF ~Is(x, a, "REF_EXPR") THEN 0
  ELSE LET r == Ref(x, a) IN
       IF r # <<>> /\ r[1] = "rule" /\ NodeTypeOf(x, r[2]) # "" THEN r[2] ELSE 0

MinOf(a, b) == IF a < b THEN a ELSE b

\* contexts are numbered; the number stands as 0 here and is compared separately
Call(x, c) ==
  LET f == Fn(x, c)  as == Args(x, c)  r == RuleFor(x, f) IN
  IF Builtin(f) THEN
    IF Len(as) < Arity[f] THEN <<>>
    ELSE IF f \in {"enter", "exit", "is_in"} THEN
         IF ContextLeaf(x, c) = 0 THEN <<>>
         ELSE IF f = "is_in" THEN <<f, 0>> ELSE <<f, 0, as[2]>>
    ELSE <<f>> \o SubSeq(as, 1, Arity[f])
  ELSE IF f = "prev_is" THEN <<f, SelectSeq([i \in 1..Len(as) |-> PubArg(x, as[i])], Some0)>>
  ELSE IF r # 0 /\ HasParams(x, r) THEN
    LET ps == Params(x, r) IN
    <<"rule", r, [i \in 1..MinOf(Len(ps), Len(as)) |-> <<ps[i], as[i]>>]>>
  ELSE <<>>

\* the number given to the context of an answered call, -1 if it has none
Number(ans) == IF ans # <<>> /\ ans[1] \in {"enter", "exit", "is_in"} THEN ans[2] ELSE -1
Unnumbered(ans) == IF Number(ans) = -1 THEN ans ELSE [ans EXCEPT ![2] = 0]

-----------------------------------------------------------------------------
(* Operators *)
Digit == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
         @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
RECURSIVE Dec(_, _)
Dec(s, acc) == IF Len(s) = 0 THEN acc ELSE Dec(SubSeq(s, 2, Len(s)), 10 * acc + Digit[SubSeq(s, 1, 1)])
\* the number an attribute carries, -1 if none; numbers have at most nine digits here, or too many
Number32(x, a) ==
  LET s == AttrValue(x, a) IN
  IF Len(s) = 0 \/ Len(s) > 9 \/ \E i \in 1..Len(s) : SubSeq(s, i, i) \notin DOMAIN Digit THEN -1 ELSE Dec(s, 0)

Body(x, r) == FirstOr0(Exprs(x, r))
OpKind(x, r) ==
  FirstOr0(SelectSeq([i \in 1..4 |-> IF Attr(x, r, <<"atom", "postfix", "prefix", "bin">>[i]) # 0 THEN i ELSE 0], Some0))

DefaultPriority == 999
\* [v: the variant, p: the problems found on the way]
Pratt(x, r) ==
  LET k == OpKind(x, r)
      b == Body(x, r)
      no(p) == [v |-> <<>>, p |-> p]
  IN IF Ident(x, r) = 0 \/ k = 0 \/ b = 0 THEN no(<<>>)
     ELSE LET a == Attr(x, r, <<"atom", "postfix", "prefix", "bin">>[k])
              pr == Number32(x, a)
              alts == Exprs(x, b)
              parts == IF Len(alts) = 1 THEN Exprs(x, alts[1]) ELSE <<>>
              prior == IF pr = -1 THEN DefaultPriority ELSE pr
          IN CASE k = 1 -> [v |-> <<"atom", b, 0>>,
                            p |-> IF pr = -1 THEN <<>> ELSE <<<<Ident(x, r), "Atom rules don't have priority">>>>]
               [] k > 1 /\ Len(alts) # 1 -> no(<<<<b, "Expression rule requires a single alternative">>>>)
               [] k = 2 /\ Len(alts) = 1 ->
                    IF Len(parts) # 2 THEN no(<<<<b, "Postfix rule requires a single expression and an operation">>>>)
                    ELSE [v |-> <<"postfix", parts[2], prior>>, p |-> <<>>]
               [] k = 3 /\ Len(alts) = 1 ->
                    IF Len(parts) # 2 THEN no(<<<<b, "Prefix rule requires an operation and a single expression">>>>)
                    ELSE [v |-> <<"prefix", parts[1], prior>>, p |-> <<>>]
               [] k = 4 /\ Len(alts) = 1 ->
                    IF Len(parts) # 3
                    THEN no(<<<<b, "Binary expression requires a left hand side expression, an operator and a right hand side expression">>>>)
                    ELSE IF pr = -1 THEN no(<<<<Ident(x, r), "Binary expression requires explicit priority">>>>)
                    ELSE [v |-> <<"bin", parts[2], pr>>, p |-> <<>>]

-----------------------------------------------------------------------------
(* Accessors of the ast block *)
TraitRefs(x, d) ==     \* the identifiers after the colon
  LET K == Kids(T(x), d)
      colon == FirstOr0(SelectSeq([i \in 1..Len(K) |-> IF Is(x, K[i], "COLON") THEN i ELSE 0], Some0))
  IN IF colon = 0 THEN <<>> ELSE OfType(T(x), SubSeq(K, colon, Len(K)), {"IDENT"})
TraitFor(x, s) == LastOr0(SelectSeq(InAst(x, "AST_TRAIT_DEF"), LAMBDA t : Named(x, t, s)))
Traits(x, d) ==
  LET rs == TraitRefs(x, d)
  IN SelectSeq([i \in 1..Len(rs) |-> TraitFor(x, Txt(x, rs[i]))], Some0)

Selector(x, m) == Kid(x, m, "AST_SELECTOR")
Child(x, m) ==         \* what an accessor selects
  LET s == Name(x, Selector(x, m))
      n == Find(x, InAst(x, "AST_NODE_DEF"), s)
      c == Find(x, InAst(x, "AST_CLASS_DEF"), s)
      l == Find(x, LexRules(x), s)
  IN IF AstDef(x) = 0 THEN <<>>
     ELSE IF n # 0 THEN <<"def", n>> ELSE IF c # 0 THEN <<"def", c>> ELSE IF l # 0 THEN <<"token", l>> ELSE <<>>
Method(x, m) ==
  LET s == Selector(x, m)
      k == Child(x, m)
      ar == IF Kid(x, s, "QUESTION") # 0 THEN "optional" ELSE IF Kid(x, s, "STAR") # 0 THEN "many" ELSE "single"
  IN IF k = <<>> THEN <<>>
     ELSE IF Kid(x, s, "DOT") # 0 THEN (IF k[1] = "token" THEN <<"text", k[2], ar>> ELSE <<>>)
     ELSE <<"node", k[2], ar>>

-----------------------------------------------------------------------------
(* All questions and their answers *)
Answer(x, kind, n) ==
  CASE kind = "ref" -> Ref(x, n)
    [] kind = "call" -> Call(x, n)
    [] kind = "pratt" -> Pratt(x, n).v
    [] kind = "method" -> Method(x, n)
    [] kind = "traits" -> Traits(x, n)

-----------------------------------------------------------------------------
(* Problems: <<0 for an error or 1 for a warning, from, to, message>> *)
At(x, sev, n, msg) == <<sev, From(T(x), n), To(T(x), n), msg>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Each(ns, F(_)) == Cat([i \in 1..Len(ns) |-> F(ns[i])])

RefProblems(x, n) ==
  IF Ref(x, n) = <<>> /\ ~NamesContext(x, n) THEN <<At(x, 0, n, "Unresolved reference")>> ELSE <<>>

CallProblems(x, c) ==
  LET f == Fn(x, c)  as == Args(x, c)  r == RuleFor(x, f)
      count(msg) == <<At(x, 0, c, msg)>>
  IN IF Builtin(f) THEN
       (IF Len(as) = Arity[f] THEN <<>>
        ELSE count("Wrong number of arguments, expected " \o ToString(Arity[f]) \o ", got " \o ToString(Len(as))))
       \o (IF f \in {"enter", "exit", "is_in"} /\ Len(as) >= Arity[f] /\ ContextLeaf(x, c) = 0
           THEN <<At(x, 0, as[1], "Context should be a single quoted string")>> ELSE <<>>)
     ELSE IF f = "prev_is" THEN
       Cat([i \in 1..Len(as) |->
              IF PubArg(x, as[i]) = 0 THEN <<At(x, 0, c, "<prev_is> arguments must be public rules")>> ELSE <<>>])
     ELSE IF r # 0 /\ HasParams(x, r) THEN
       (IF Len(as) = Len(Params(x, r)) THEN <<>>
        ELSE count("Expected " \o ToString(Len(Params(x, r))) \o " arguments, got " \o ToString(Len(as))))
     ELSE <<At(x, 0, Ident(x, c), "Unresolved reference")>>

DuplicateRules(x) ==
  Each(Rules(x), LAMBDA r :
    IF Ident(x, r) # 0 /\ RuleFor(x, Name(x, r)) # r THEN <<At(x, 0, Ident(x, r), "Duplicate rule")>> ELSE <<>>)

DuplicateTokens(x) ==
  Each(LexRules(x), LAMBDA l :
    IF Find(x, LexRules(x), Name(x, l)) # l THEN <<At(x, 0, l, "Duplicate token")>> ELSE <<>>)

ContextCalls(x) == SelectSeq(All(x, {"CALL_EXPR"}), LAMBDA c : ContextLeaf(x, c) # 0)
LoneContexts(x) ==
  LET cs == ContextCalls(x)
      same(c) == {d \in Range(cs) : ContextName(x, d) = ContextName(x, c)}
  IN Each(cs, LAMBDA c :
       IF same(c) = {c} THEN <<At(x, 1, c, "Context `" \o ContextName(x, c) \o "` is used only once")>> ELSE <<>>)

UsedRules(x) ==
  LET refs == All(x, {"REF_EXPR"})  calls == All(x, {"CALL_EXPR"}) IN
  {Ref(x, n)[2] : n \in {m \in Range(refs) : Ref(x, m) # <<>> /\ Ref(x, m)[1] = "rule"}}
  \cup {Call(x, c)[2] : c \in {d \in Range(calls) : Call(x, d) # <<>> /\ Call(x, d)[1] = "rule"}}
  \cup (IF Rules(x) = <<>> THEN {} ELSE {Rules(x)[1]})
UnusedRules(x) ==
  LET used == UsedRules(x) IN
  Each(Rules(x), LAMBDA r :
    IF r \notin used /\ Ident(x, r) # 0 THEN <<At(x, 1, Ident(x, r), "Unused rule")>> ELSE <<>>)

TraitProblems(x, d) ==
  Each(TraitRefs(x, d), LAMBDA i : IF TraitFor(x, Txt(x, i)) = 0 THEN <<At(x, 0, i, "Unresolved trait")>> ELSE <<>>)

Problems(x) ==
  Each(All(x, {"REF_EXPR"}), LAMBDA n : RefProblems(x, n))
  \o Each(All(x, {"CALL_EXPR"}), LAMBDA c : CallProblems(x, c))
  \o Each(All(x, {"SYN_RULE"}), LAMBDA r : LET p == Pratt(x, r).p IN [i \in 1..Len(p) |-> At(x, 0, p[i][1], p[i][2])])
  \o Each(All(x, {"AST_NODE_DEF"}), LAMBDA d : TraitProblems(x, d))
  \o DuplicateRules(x) \o DuplicateTokens(x) \o LoneContexts(x) \o UnusedRules(x)

Ordered(ds) ==         \* errors first, then by place
  \A i \in 1..(Len(ds) - 1) :
    LET a == ds[i]  b == ds[i + 1] IN
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) : Len(SelectSeq(s, LAMBDA d : d = s[i])) = Len(SelectSeq(t, LAMBDA d : d = s[i]))

-----------------------------------------------------------------------------
(* Definitions and usages, as an editor shows them *)
\* a place that refers: <<range node, definition>>, <<>> if n is none; the definition may be 0
RefersTo(x, n) ==
  CASE Is(x, n, "REF_EXPR") -> LET r == Ref(x, n) IN <<n, IF r = <<>> THEN 0 ELSE r[2]>>
    [] Is(x, n, "METHOD_DEF") ->
         LET m == Method(x, n) IN <<Selector(x, n), IF m # <<>> /\ m[1] = "node" THEN m[2] ELSE 0>>
    [] Is(x, n, "IDENT") /\ Parent(T(x), n) # 0 /\ Is(x, Parent(T(x), n), "CALL_EXPR") ->
         LET c == Call(x, Parent(T(x), n)) IN IF c # <<>> /\ c[1] = "rule" THEN <<n, c[2]>> ELSE <<>>
    [] OTHER -> <<>>

Defines(x, n) == Ty(T(x), n) \in {"SYN_RULE", "LEX_RULE", "PARAMETER", "AST_NODE_DEF", "AST_CLASS_DEF"}
\* where a definition is shown: its name if rules and classes have one
Shown(x, d) ==
  IF Ty(T(x), d) \in {"SYN_RULE", "AST_NODE_DEF", "AST_CLASS_DEF"} /\ Ident(x, d) # 0
  THEN Span(T(x), Ident(x, d)) ELSE Span(T(x), d)

WsTypes == {"WHITESPACE", "EOL_COMMENT"}
\* the leaf at an offset: the left one of two unless it is whitespace
Caret(x, o) ==
  LET ls == LeavesAt(T(x), 1, o) IN
  IF ls = <<>> THEN 0 ELSE IF Ty(T(x), ls[1]) \in WsTypes THEN Last(ls) ELSE ls[1]

GoTo(x, o) ==
  LET up == IF Caret(x, o) = 0 THEN <<>> ELSE Ancestors(T(x), Caret(x, o))
      rs == SelectSeq([i \in 1..Len(up) |-> RefersTo(x, up[i])], LAMBDA r : r # <<>>)
  IN IF rs = <<>> \/ rs[1][2] = 0 THEN <<>> ELSE Shown(x, rs[1][2])

\* the definition at an offset: its name is there, or something referring to it is
DefAt(x, o) ==
  LET up == IF Caret(x, o) = 0 THEN <<>> ELSE Ancestors(T(x), Caret(x, o))
      d(n) == IF Defines(x, n) /\ Shown(x, n)[1] <= o /\ o <= Shown(x, n)[2] THEN n
              ELSE LET r == RefersTo(x, n) IN IF r = <<>> THEN 0 ELSE r[2]
  IN FirstOr0(SelectSeq([i \in 1..Len(up) |-> d(up[i])], Some0))

\* all places that refer to something, in source order: <<from, to, definition>>
Places(x) ==
  LET ps == SelectSeq([n \in 1..Len(T(x)) |-> RefersTo(x, n)], LAMBDA r : r # <<>> /\ r[2] # 0)
  IN [i \in 1..Len(ps) |-> <<From(T(x), ps[i][1]), To(T(x), ps[i][1]), ps[i][2]>>]
UsagesOf(places, d) ==
  IF d = 0 THEN <<>>
  ELSE LET u == SelectSeq(places, LAMBDA p : p[3] = d) IN [i \in 1..Len(u) |-> <<u[i][1], u[i][2]>>]

-----------------------------------------------------------------------------
(* Outline, tests and colours *)
Outline(x) ==
  LET ns == OfType(T(x), PostOrder(T(x), 1), {"SYN_RULE", "TOKENIZER_DEF", "AST_DEF"})
      label(n) == IF Is(x, n, "TOKENIZER_DEF") THEN "tokenizer" ELSE IF Is(x, n, "AST_DEF") THEN "ast"
                  ELSE IF Ident(x, n) = 0 THEN "" ELSE Name(x, n)
      shown == SelectSeq(ns, LAMBDA n : label(n) # "")
  IN [i \in 1..Len(shown) |-> <<label(shown[i]), From(T(x), shown[i]), To(T(x), shown[i]), 0>>]

\* the number of the test the offset is in
TestAt(x, o) ==
  LET ls == LeavesAt(T(x), 1, o)
      t == IF ls = <<>> THEN 0 ELSE Up(x, Last(ls), "TEST_DEF")
      ts == KidsOf(x, 1, {"TEST_DEF"})
  IN IF t = 0 THEN <<>> ELSE <<Index(ts, t) - 1>>

Plain ==
  ("EOL_COMMENT" :> "comment") @@ ("HASH_STRING" :> "string") @@ ("SIMPLE_STRING" :> "string")
  @@ [k \in {"RULE", "VERBATIM", "TOKENIZER", "AST", "NODE", "CLASS", "PUB", "TEST", "TRAIT"} |-> "keyword"]
  @@ ("PARAMETER" :> "parameter") @@ ("ATTRIBUTES" :> "attribute")

Colours(x) ==
  LET post == PostOrder(T(x), 1)
      len == To(T(x), 1)
      one(n, c) == IF n = 0 THEN <<>> ELSE <<<<From(T(x), n), To(T(x), n), c>>>>
      ty(n) == Ty(T(x), n)
      paint(n) ==
        IF ty(n) = "ERROR" THEN
             <<<<From(T(x), n), IF IsEmpty(T(x), n) THEN From(T(x), n) + 1 ELSE To(T(x), n), "error">>>>
        ELSE (IF ty(n) \in DOMAIN Plain THEN one(n, Plain[ty(n)]) ELSE <<>>)
        \o CASE ty(n) = "LEX_RULE" -> one(Ident(x, n), "literal")
             [] ty(n) \in {"SYN_RULE", "AST_NODE_DEF", "AST_TRAIT_DEF", "AST_CLASS_DEF"} -> one(Ident(x, n), "function")
             [] ty(n) = "REF_EXPR" ->
                  LET r == Ref(x, n) IN
                  IF r = <<>> THEN <<>>
                  ELSE one(n, IF r[1] = "token" THEN "literal" ELSE IF r[1] = "rule" THEN "function" ELSE "parameter")
             [] ty(n) = "METHOD_DEF" ->
                  LET m == Method(x, n) IN
                  IF m = <<>> \/ m[1] = "text" THEN <<>>
                  ELSE one(Ident(x, Selector(x, n)), IF ty(m[2]) = "LEX_RULE" THEN "literal" ELSE "function")
             [] ty(n) = "CALL_EXPR" ->
                  LET c == Call(x, n)
                      col == IF c = <<>> \/ c[1] = "rule" THEN "function" ELSE "builtin"
                  IN one(Ident(x, n), col) \o one(Kid(x, n, "L_ANGLE"), col) \o one(Kid(x, n, "R_ANGLE"), col)
             [] OTHER -> <<>>
  IN Each(post, paint)
=============================================================================
