----------------------------- MODULE FileSystem -----------------------------
(* Files and directories with contents, and the ways they change.  A path  *)
(* is a sequence of names, fs a function from paths to what is there.      *)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Dir == -2

RECURSIVE Below(_, _, _)
Below(p, names, k) == IF k = 0 THEN {p} ELSE {p} \cup UNION {Below(Append(p, m), names, k - 1) : m \in names}

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Related(p, q) == IsPrefix(p, q) \/ IsPrefix(q, p)
ParentOf(p) == SubSeq(p, 1, Len(p) - 1)
Under(S, p) == {q \in S : IsPrefix(p, q)}

\* [op |-> "write", p, c], [op |-> "mkdir", p], [op |-> "rm", p], [op |-> "mv", p, q]
Possible(fs, o) ==
  CASE o.op = "write" -> Len(o.p) > 1 /\ fs[ParentOf(o.p)] = Dir /\ fs[o.p] # Dir
    [] o.op = "mkdir" -> Len(o.p) > 1 /\ fs[ParentOf(o.p)] = Dir /\ fs[o.p] = None
    [] o.op = "rm" -> Len(o.p) > 1 /\ fs[o.p] # None
    [] o.op = "mv" -> /\ Len(o.p) > 1 /\ Len(o.q) > 1 /\ fs[o.p] # None /\ ~Related(o.p, o.q)
                      /\ fs[ParentOf(o.q)] = Dir
                      /\ fs[o.q] = None \/ (fs[o.q] >= 0 /\ fs[o.p] >= 0)   \* a file takes the place of another

Moved(p, q, x) == q \o SubSeq(x, Len(p) + 1, Len(x))
\* what is moved stays within the paths there are
Fits(fs, o) == o.op = "mv" => \A x \in Under(DOMAIN fs, o.p) : fs[x] # None => Moved(o.p, o.q, x) \in DOMAIN fs
Changed(fs, o) ==
  CASE o.op = "write" -> [fs EXCEPT ![o.p] = o.c]
    [] o.op = "mkdir" -> [fs EXCEPT ![o.p] = Dir]
    [] o.op = "rm" -> [x \in DOMAIN fs |-> IF IsPrefix(o.p, x) THEN None ELSE fs[x]]
    [] o.op = "mv" -> [x \in DOMAIN fs |->
                         IF IsPrefix(o.q, x) THEN (LET y == Moved(o.q, o.p, x) IN IF y \in DOMAIN fs THEN fs[y] ELSE None)
                         ELSE IF IsPrefix(o.p, x) THEN None ELSE fs[x]]
\* the paths reported as changed
Reported(fs, o) ==
  CASE o.op = "rm" -> {x \in Under(DOMAIN fs, o.p) : fs[x] # None}
    [] o.op = "mv" -> {o.p, o.q}
    [] OTHER -> {o.p}
Touched(o) == IF o.op = "mv" THEN {o.p, o.q} ELSE {o.p}

UnderOne(roots, p) == \E r \in roots : IsPrefix(r, p)
Named(names, p) == p[Len(p)] \in names
\* what an index of the roots should hold; contents 0 are refused by the mapper
Wanted(fs, roots, names) == {<<p, fs[p]>> : p \in {x \in DOMAIN fs : fs[x] > 0 /\ UnderOne(roots, x) /\ Named(names, x)}}
=============================================================================
