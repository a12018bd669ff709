-------------------------------- MODULE Rust --------------------------------
(***************************************************************************)
(* What the Rust editor shows and does at a place of a Rust source, and    *)
(* what symbol search finds.  x.nodes is the tree (see Tree), x.txt the    *)
(* text of every leaf, x.lines the offsets at which lines start.           *)
(***************************************************************************)
EXTENDS Editing

T(x) == x.nodes
Txt(x, n) == x.txt[n]
Is(x, n, ty) == n # 0 /\ Ty(T(x), n) = ty
KidsOf(x, n, tys) == IF n = 0 THEN <<>> ELSE OfType(T(x), Kids(T(x), n), tys)
Kid(x, n, ty) == FirstOr0(KidsOf(x, n, {ty}))

-----------------------------------------------------------------------------
(* Symbols *)
TypeDefs == {"STRUCT_DEF", "ENUM_DEF", "TRAIT_DEF", "TYPE_DEF"}
Defs == TypeDefs \cup {"FN_DEF", "MOD_DEF"}
Ident(x, n) == Kid(x, n, "IDENT")
Name(x, n) == Txt(x, Ident(x, n))
Symbols(x) == SelectSeq(PostOrder(T(x), 1), LAMBDA n : Ty(T(x), n) \in Defs /\ Ident(x, n) # 0)
Outline(x) == LET s == Symbols(x) IN [i \in 1..Len(s) |-> <<Name(x, s[i]), Span(T(x), s[i])>>]

\* line and column, from 0, columns in bytes
LineCol(x, o) ==
  LET l == CHOOSE i \in 1..Len(x.lines) : x.lines[i] <= o /\ (i = Len(x.lines) \/ x.lines[i + 1] > o)
  IN <<l - 1, o - x.lines[l]>>

-----------------------------------------------------------------------------
(* Search.  low maps every character to its lower-case characters.         *)
RECURSIVE Lower(_, _), InOrder(_, _)
Lower(low, s) == IF s = "" THEN "" ELSE low[SubSeq(s, 1, 1)] \o Lower(low, SubSeq(s, 2, Len(s)))
InOrder(q, s) ==      \* s contains the characters of q in order
  IF q = "" THEN TRUE
  ELSE IF s = "" THEN FALSE
  ELSE InOrder(IF SubSeq(q, 1, 1) = SubSeq(s, 1, 1) THEN SubSeq(q, 2, Len(q)) ELSE q, SubSeq(s, 2, Len(s)))
RECURSIVE Without(_, _)
Without(s, c) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = c THEN "" ELSE SubSeq(s, 1, 1)) \o Without(SubSeq(s, 2, Len(s)), c)
Limit == 512

\* the symbols of a file: <<kind, lower-case name, what an answer says>>
Table(low, x) ==
  {<<Ty(T(x), n), Lower(low, Name(x, n)), <<Ty(T(x), n), Name(x, n), Span(T(x), n), LineCol(x, From(T(x), n)), LineCol(x, To(T(x), n))>>>>
   : n \in Range(Symbols(x))}

\* tables: the tables of the files, [path |-> table]; R: the answers, a sequence of <<path, symbol>>
GoodAnswer(low, tables, q, R) ==
  LET want == Lower(low, Without(q, "#"))
      match == [p \in DOMAIN tables |-> {s \in tables[p] : InOrder(want, s[2])}]
      types == [p \in DOMAIN tables |-> {s \in match[p] : s[1] \in TypeDefs}]
      sharp == Without(q, "#") # q
      G == IF ~sharp /\ (\E p \in DOMAIN tables : types[p] # {}) THEN types ELSE match
      F == [p \in DOMAIN tables |-> {s[3] : s \in G[p]}]
      Of(p) == {i \in DOMAIN R : R[i][1] = p}
      in == {R[i][1] : i \in DOMAIN R}
      all == {p \in DOMAIN tables : F[p] # {}}
  IN /\ in \subseteq DOMAIN tables
     /\ \A p \in in : {R[i][2] : i \in Of(p)} = F[p] /\ Cardinality(Of(p)) = Cardinality(F[p])
     \* the search stops after the file that exceeds the limit
     /\ in = all \/ (Len(R) > Limit /\ \E p \in in : Len(R) - Cardinality(Of(p)) <= Limit)

-----------------------------------------------------------------------------
(* Places *)
RECURSIVE Up(_, _, _)
Up(x, n, tys) == IF n = 0 THEN 0 ELSE IF Ty(T(x), n) \in tys THEN n ELSE Up(x, Parent(T(x), n), tys)
White == {"WHITESPACE", "LINE_COMMENT", "BLOCK_COMMENT"}
\* the leaf that contains the offset or ends there
LeftLeaf(x, o) == FirstOr0(LeavesAt(T(x), 1, o))
\* the node of that type around the offset, that of the left leaf first
RECURSIVE AroundAny(_, _, _)
AroundAny(x, ls, ty) ==
  IF ls = <<>> THEN 0 ELSE LET n == Up(x, Head(ls), {ty}) IN IF n # 0 THEN n ELSE AroundAny(x, Tail(ls), ty)
Around(x, o, ty) == AroundAny(x, LeavesAt(T(x), 1, o), ty)

Crumb(x, n) ==
  LET ts == KidsOf(x, n, {"TYPE_REFERENCE"})
      named(tag) == IF Ident(x, n) = 0 THEN <<>> ELSE <<tag \o " " \o Name(x, n)>>
  IN CASE Ty(T(x), n) = "STRUCT_DEF" -> named("struct")
       [] Ty(T(x), n) = "ENUM_DEF" -> named("enum")
       [] Ty(T(x), n) = "TRAIT_DEF" -> named("trait")
       [] Ty(T(x), n) = "FN_DEF" -> named("fn")
       [] Ty(T(x), n) = "IMPL_DEF" ->
            IF ts = <<>> THEN <<>>
            ELSE IF Len(ts) = 1 THEN <<"impl " \o TextOf(x, ts[1])>>
            ELSE <<"impl " \o TextOf(x, ts[1]) \o " for " \o TextOf(x, ts[2])>>
       [] OTHER -> <<>>
RECURSIVE CrumbsUp(_, _)
CrumbsUp(x, n) == IF n = 0 THEN <<>> ELSE CrumbsUp(x, Parent(T(x), n)) \o Crumb(x, n)
\* the declarations around the character before the caret, outermost first
Breadcrumbs(x, o) == IF o = 0 THEN <<>> ELSE CrumbsUp(x, LeftLeaf(x, o - 1))

\* a semicolon after `let ` if the statement has neither value nor semicolon; the offset is after the blank
AfterSpace(x, o) ==
  LET l == IF o = 0 THEN 0 ELSE LeftLeaf(x, o - 1)
      s == IF Is(x, l, "LET") THEN Up(x, l, {"LET_STMT"}) ELSE 0
      semi == \E m \in 1..Len(T(x)) : IsLeaf(T(x), m) /\ From(T(x), m) = To(T(x), s) /\ SubSeq(Txt(x, m), 1, 1) = ";"
  IN IF s = 0 THEN <<>>
     ELSE IF KidsOf(x, s, {"SEMI", "EQ"}) # <<>> \/ semi THEN <<>> ELSE <<";">>

-----------------------------------------------------------------------------
(* Actions: <<>> if not available, <<the new text>> otherwise              *)
\* the last part of what is used, with its alias
Braced(x, o) == Kid(x, Kid(x, Around(x, o, "USE_DECL"), "PATH"), "PATH_SEGMENT")
Braces(x, o) ==
  LET u == Around(x, o, "USE_DECL")
      s == Braced(x, o)
      a == Kid(x, u, "ALIAS")
      between == SelectSeq(Kids(T(x), u), LAMBDA k : From(T(x), k) >= To(T(x), s) /\ To(T(x), k) <= To(T(x), a))
  IN IF s = 0 \/ Kid(x, u, "USE_SPEC") # 0 THEN <<>>
     ELSE IF a = 0 THEN <<Out(x, 1, [n \in {s} |-> "{" \o TextOf(x, s) \o "}"], Nothing)>>
     ELSE <<Out(x, 1, [n \in {s} \cup Range(between) |-> IF n = s THEN "{" \o TextOf(x, s) \o TextAll(x, between) \o "}" ELSE ""], Nothing)>>

RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Joined(Tail(ss))
Impl(x, o) ==
  LET named(ty) == LET d == Around(x, o, ty) IN IF d # 0 /\ Ident(x, d) # 0 THEN d ELSE 0
      d == IF named("STRUCT_DEF") # 0 THEN named("STRUCT_DEF") ELSE named("ENUM_DEF")
      ps == Kid(x, d, "TYPE_PARAMETERS")
      lts == KidsOf(x, ps, {"LIFETIME_PARAMETER"})
      tys == KidsOf(x, ps, {"TYPE_PARAMETER"})
      args == [i \in 1..Len(lts) |-> Txt(x, Kid(x, lts[i], "LIFETIME"))] \o [i \in 1..Len(tys) |-> Name(x, tys[i])]
  IN IF d = 0 THEN <<>>
     ELSE <<Out(x, 1, Nothing, [n \in {d} |-> "\n\nimpl" \o (IF ps = 0 THEN "" ELSE TextOf(x, ps)) \o " " \o Name(x, d)
                                \o (IF ps = 0 THEN "" ELSE "<" \o Joined(args) \o ">") \o " {\n\n}"])>>

Ids == <<"Swap", "Add braces", "Add impl">>
Applied(x, o, id) ==
  CASE id = "Swap" -> (LET p == AroundComma(x, o, White) IN IF p = <<>> THEN <<>> ELSE <<Exchanged(x, p)>>)
    [] id = "Add braces" -> Braces(x, o)
    [] id = "Add impl" -> Impl(x, o)
    [] OTHER -> <<>>
=============================================================================
