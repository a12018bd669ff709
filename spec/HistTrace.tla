------------------------------ MODULE HistTrace ------------------------------
(***************************************************************************)
(* Histories of edits of one document.  The state is the document (bytes)  *)
(* and the tree shown for it; an edit, given as kept ranges and            *)
(* insertions, produces the document it describes and the tree of that     *)
(* document parsed from scratch - however the tree was in fact obtained.   *)
(* Trees are compared by the fingerprint the driver records.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

RECURSIVE Apply(_, _)
Apply(doc, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops) IN
       (IF o[1] = "c" THEN SubSeq(doc, o[2] + 1, o[3]) ELSE o[2]) \o Apply(doc, Tail(ops))

VARIABLES c, k, doc, tree, v
vars == <<c, k, doc, tree, v>>

H(x) == Trace[x]

Start(x) == /\ doc' = H(x).text
            /\ tree' = H(x).scratch0
            /\ v' = IF H(x).tree0 = H(x).scratch0 THEN "ok" ELSE "bad"

Init == /\ c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
        /\ k = 0
        /\ doc = H(c).text /\ tree = H(c).scratch0
        /\ v = IF H(c).tree0 = H(c).scratch0 THEN "ok" ELSE "bad"

Edit == /\ k < Len(H(c).steps)
        /\ LET s == H(c).steps[k + 1] IN
           /\ doc' = Apply(doc, s.ops)
           /\ tree' = s.scratch
           /\ v' = IF /\ s.text = doc'
                      /\ s.tree = tree'
                      /\ (doc' = doc => s.tree = tree)
                   THEN "ok" ELSE "bad"
        /\ k' = k + 1 /\ c' = c

NextHistory == /\ k = Len(H(c).steps) /\ c + Stride <= Len(Trace)
               /\ c' = c + Stride /\ k' = 0
               /\ Start(c + Stride)

Next == Edit \/ NextHistory
Spec == Init /\ [][Next]_vars
Conforms == v = "ok"
View == <<c, k, v>>
=============================================================================
