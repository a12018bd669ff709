----------------------------- MODULE TotalTrace -----------------------------
(***************************************************************************)
(* Any text has a lossless, well-formed tree.  A behaviour: a text is      *)
(* parsed, parsed again, then edited; after every step the tree shown is   *)
(* a tree (nothing is refused, nothing crashes), its links agree, and its  *)
(* leaves spell the document that the edits so far give.                   *)
(* A step is recorded as <<tree>>, or <<>> when there is no tree.          *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

RECURSIVE Apply(_, _)
Apply(doc, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops) IN
       (IF o[1] = "c" THEN SubSeq(doc, o[2] + 1, o[3]) ELSE o[2]) \o Apply(doc, Tail(ops))

Childless(T) == {n \in 1..Len(T) : Kids(T, n) = <<>>}

Lossless(t, doc) ==
  LET T == t.nodes IN
  /\ WellFormed(T, Len(doc))
  \* leaves are the childless nodes; WellFormed makes them tile the text, so that showing their
  \* stretch of the document is the same as concatenating to it
  /\ {t.leaves[i][1] : i \in 1..Len(t.leaves)} = Childless(T)
  /\ \A i \in 1..Len(t.leaves) :
       t.leaves[i][2] = SubSeq(doc, From(T, t.leaves[i][1]) + 1, To(T, t.leaves[i][1]))
  /\ \A n \in 1..Len(T) :
       /\ From(T, n) <= To(T, n)
       /\ t.sibs[n] = (IF n = 1 THEN <<0, 0>> ELSE <<LeftSibling(T, n), RightSibling(T, n)>>)

VARIABLES c, k, doc, v
vars == <<c, k, doc, v>>

H(x) == Trace[x]
Shown(x, i) == IF i <= Len(H(x).steps) THEN H(x).steps[i] ELSE <<>>
Ok(s, d) == s # <<>> /\ Lossless(s[1], d)

Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ k = 1 /\ doc = H(c).text
        /\ v = Ok(Shown(c, 1), H(c).text)

Again == /\ k = 1
         /\ k' = 2 /\ UNCHANGED <<c, doc>>
         /\ v' = (Shown(c, 2) # <<>> /\ Shown(c, 2) = Shown(c, 1))

Edit == /\ k >= 2 /\ k - 2 < Len(H(c).edits)
        /\ doc' = Apply(doc, H(c).edits[k - 1])
        /\ k' = k + 1 /\ c' = c
        /\ v' = Ok(Shown(c, k + 1), doc')

NextHistory == /\ k >= 2 /\ k - 2 = Len(H(c).edits) /\ c + Stride <= Len(Trace)
               /\ c' = c + Stride /\ k' = 1
               /\ doc' = H(c').text
               /\ v' = Ok(Shown(c', 1), H(c').text)

Next == Again \/ Edit \/ NextHistory
Spec == Init /\ [][Next]_vars
Conforms == v
View == <<c, k, v>>
=============================================================================
