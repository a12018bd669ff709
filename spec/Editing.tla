------------------------------- MODULE Editing -------------------------------
(* Texts of trees with some nodes changed, and exchanging what a comma     *)
(* separates.  x.nodes is the tree (see Tree), x.txt the text of leaves.   *)
EXTENDS Tree, TLC

RECURSIVE TextOf(_, _), TextAll(_, _)
TextOf(x, n) == IF Kids(x.nodes, n) = <<>> THEN x.txt[n] ELSE TextAll(x, Kids(x.nodes, n))
TextAll(x, K) == IF K = <<>> THEN "" ELSE TextOf(x, Head(K)) \o TextAll(x, Tail(K))

\* the text with some nodes replaced (by nothing, if deleted) and something put after others
RECURSIVE Out(_, _, _, _), OutAll(_, _, _, _)
Out(x, n, R, I) ==
  IF n \in DOMAIN R THEN R[n]
  ELSE (IF Kids(x.nodes, n) = <<>> THEN x.txt[n] ELSE OutAll(x, Kids(x.nodes, n), R, I))
       \o (IF n \in DOMAIN I THEN I[n] ELSE "")
OutAll(x, K, R, I) == IF K = <<>> THEN "" ELSE Out(x, Head(K), R, I) \o OutAll(x, Tail(K), R, I)
Nothing == [n \in {} |-> ""]

Exchanged(x, pr) == Out(x, 1, [n \in {pr[1], pr[2]} |-> TextOf(x, IF n = pr[1] THEN pr[2] ELSE pr[1])], Nothing)

RECURSIVE FirstLeaf(_, _, _, _)
FirstLeaf(x, ls, ty, s) ==
  IF ls = <<>> THEN 0
  ELSE IF (ty # "" /\ Ty(x.nodes, ls[1]) = ty) \/ (s # "" /\ x.txt[ls[1]] = s) THEN ls[1]
  ELSE FirstLeaf(x, Tail(ls), ty, s)

RECURSIVE Beyond(_, _, _, _)      \* the nearest neighbour that is not white
Beyond(x, n, left, white) ==
  LET m == IF left THEN LeftSibling(x.nodes, n) ELSE RightSibling(x.nodes, n) IN
  IF m = 0 THEN 0 ELSE IF Ty(x.nodes, m) \in white THEN Beyond(x, m, left, white) ELSE m

\* the two elements of the same kind beside the comma at the offset, <<>> if there are none
AroundComma(x, o, white) ==
  LET c == FirstLeaf(x, LeavesAt(x.nodes, 1, o), "", ",")
      l == IF c = 0 THEN 0 ELSE Beyond(x, c, TRUE, white)
      r == IF c = 0 THEN 0 ELSE Beyond(x, c, FALSE, white)
  IN IF l = 0 \/ r = 0 THEN <<>> ELSE IF Ty(x.nodes, l) # Ty(x.nodes, r) THEN <<>> ELSE <<l, r>>

\* exchanging back gives the old text if both neighbours are there and the source has no errors
Reversible(x, p) ==
  /\ p # <<>> /\ ~IsEmpty(x.nodes, p[1]) /\ ~IsEmpty(x.nodes, p[2])
  /\ \A n \in 1..Len(x.nodes) : Ty(x.nodes, n) # "ERROR"
=============================================================================
