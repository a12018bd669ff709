--------------------------------- MODULE Ast ---------------------------------
(***************************************************************************)
(* What the typed wrappers declared in the ast block of a grammar source   *)
(* mean on a tree.  A is a record                                          *)
(*   nodes    <<[n, u, tr, ms]>>  wrappers of one node type: name, name in *)
(*            capitals, names of traits, methods                           *)
(*   classes  <<[n, vs]>>         wrappers of several                      *)
(*   traits   <<[n, ms]>>                                                  *)
(*   toks     <<[n, u]>>          the tokens                               *)
(* a method is [n, c, ar, dot]: name, name of the child, "one", "opt" or   *)
(* "many", whether it is the child's text.  x is a tree: nodes and the     *)
(* text of each (txt).                                                     *)
(***************************************************************************)
EXTENDS Tree

Named(s, name) == LET I == {i \in 1..Len(s) : s[i].n = name} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* how the wrapper takes a node of type ty: <<>> if not, otherwise <<the variants chosen, outermost first>>
RECURSIVE Take(_, _, _), TakeFirst(_, _, _)
Take(A, name, ty) ==
  IF Named(A.nodes, name) # 0
  THEN IF A.nodes[Named(A.nodes, name)].u = ty THEN <<<<>>>> ELSE <<>>
  ELSE TakeFirst(A, A.classes[Named(A.classes, name)].vs, ty)
TakeFirst(A, vs, ty) ==
  IF vs = <<>> THEN <<>>
  ELSE LET t == Take(A, Head(vs), ty) IN
       IF t # <<>> THEN <<<<Head(vs)>> \o t[1]>> ELSE TakeFirst(A, Tail(vs), ty)

\* names mean node wrappers before classes before tokens
IsWrapper(A, name) == Named(A.nodes, name) # 0 \/ Named(A.classes, name) # 0

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Each1(s, f(_)) == Flat([i \in 1..Len(s) |-> f(s[i])])

\* the children a method is about: <<node, variants>>
Children(A, T, n, m) ==
  LET one(k) == IF IsWrapper(A, m.c)
                THEN (LET t == Take(A, m.c, Ty(T, k)) IN IF t = <<>> THEN <<>> ELSE <<<<k, t[1]>>>>)
                ELSE IF Ty(T, k) = A.toks[Named(A.toks, m.c)].u THEN <<<<k, <<>>>>>> ELSE <<>>
  IN Each1(Kids(T, n), one)

Outcome(A, x, n, m) ==
  LET cs == Children(A, x.nodes, n, m)
      all == IF m.ar = "many" \/ cs = <<>> THEN cs ELSE <<cs[1]>>
  IN IF m.ar = "one" /\ cs = <<>> THEN <<"fails", <<>>>>
     ELSE <<"ok", [i \in 1..Len(all) |-> IF m.dot THEN <<x.txt[all[i][1]]>> ELSE all[i]]>>

\* the methods of a wrapper: its own, then those of its traits in the order the traits are declared
Own(A, w) == [i \in 1..Len(w.ms) |-> <<"", w.ms[i]>>]
OfTraits(A, w) ==
  LET mine == SelectSeq(A.traits, LAMBDA t : \E i \in 1..Len(w.tr) : w.tr[i] = t.n)
  IN Flat([j \in 1..Len(mine) |-> [i \in 1..Len(mine[j].ms) |-> <<mine[j].n, mine[j].ms[i]>>]])
Methods(A, w) == Own(A, w) \o OfTraits(A, w)

\* every call of every method on every node of the tree
Calls(A, x) ==
  LET on(w, n) == IF w.u # Ty(x.nodes, n) THEN <<>>
                  ELSE LET ms == Methods(A, w) IN
                       [i \in 1..Len(ms) |-> LET r == Outcome(A, x, n, ms[i][2]) IN <<w.n, n, ms[i][1], ms[i][2].n, r[1], r[2]>>]
  IN Flat([i \in 1..Len(A.nodes) |-> Flat([n \in 1..Len(x.nodes) |-> on(A.nodes[i], n)])])

Wrappers(A) == [i \in 1..Len(A.nodes) |-> A.nodes[i].n] \o [i \in 1..Len(A.classes) |-> A.classes[i].n]
\* what a wrapper takes in the tree, in the order of nodes
Taken(A, x, name) ==
  Flat([n \in 1..Len(x.nodes) |-> LET t == Take(A, name, Ty(x.nodes, n)) IN IF t = <<>> THEN <<>> ELSE <<<<n, t[1]>>>>])
\* the nearest node around that the wrapper takes
RECURSIVE Above(_, _, _, _)
Above(A, x, name, n) ==
  IF n = 0 THEN 0 ELSE IF Take(A, name, Ty(x.nodes, n)) # <<>> THEN n ELSE Above(A, x, name, Parent(x.nodes, n))
\* children before parents
Below(A, x, name) == SelectSeq(PostOrder(x.nodes, 1), LAMBDA n : Take(A, name, Ty(x.nodes, n)) # <<>>)
Implements(A) ==
  [i \in 1..Len(A.traits) |-> [j \in 1..Len(A.nodes) |-> \E k \in 1..Len(A.nodes[j].tr) : A.nodes[j].tr[k] = A.traits[i].n]]
=============================================================================
