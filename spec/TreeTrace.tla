------------------------------ MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Recorded answers of the tree queries and traversals against Tree.tla.   *)
(* What may be refused is recorded as a sequence, empty if refused.        *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

LeafOk(T, q) ==
  LET n == q[1]  o == q[2]  ls == LeavesAt(T, n, o) IN
  IF o < From(T, n) \/ o > To(T, n) THEN q[3] = <<>> /\ q[4] = <<>>
  ELSE LET Anc(m, ty) == FirstOr0(OfType(T, Ancestors(T, m), {ty}))
           AstAt(ty) == IF ls = <<>> THEN 0
                        ELSE IF Anc(ls[1], ty) # 0 THEN Anc(ls[1], ty) ELSE Anc(Last(ls), ty)
       IN /\ Len(ls) <= 2
          /\ q[3] = <<<<ls, ls, FirstOr0(ls), LastOr0(ls)>>>>
          /\ q[4] = <<<<AstAt(1), AstAt(90)>>>>

CoverOk(x, q) ==
  LET T == x.nodes  r == <<q[1], q[2]>> IN
  IF r[2] > To(T, 1) THEN q[3] = <<>> /\ q[4] = <<>>
  ELSE LET e == Extend(T, x.text, Range(x.ws), r) IN
       /\ q[3] = <<Covering(T, r)>>
       /\ q[4] = <<e>>
       /\ ExtendSound(T, To(T, 1), r, e)

Log(T, n) ==   \* registrations made by the driver, in order
  (IF Ty(T, n) = 1 THEN <<<<1, n>>>> ELSE <<>>) \o (IF Ty(T, n) \in {1, 2} THEN <<<<2, n>>>> ELSE <<>>)
  \o (IF Ty(T, n) = 2 THEN <<<<3, n>>>> ELSE <<>>) \o (IF Ty(T, n) = 1 THEN <<<<4, n>>>> ELSE <<>>)
RECURSIVE LogAll(_, _)
LogAll(T, s) == IF s = <<>> THEN <<>> ELSE Log(T, Head(s)) \o LogAll(T, Tail(s))

PerOk(T, n, p) ==
  LET post == PostOrder(T, n)
      kids1 == OfType(T, Kids(T, n), {1})
      kids2 == OfType(T, Kids(T, n), {2})
      desc == OfType(T, post, {1})
      anc1 == OfType(T, Ancestors(T, n), {1})
      anc2 == OfType(T, Ancestors(T, n), {2})
  IN /\ Range(post) = Under(T, n)
     /\ p.anc = Ancestors(T, n)
     /\ p.sib = <<LeftSibling(T, n), RightSibling(T, n)>>
     /\ p.sub = post /\ p.bu = post
     /\ p.pre = PreOrder(T, n)
     /\ p.leaf = IsLeaf(T, n)
     /\ p.child = <<FirstOr0(kids1), FirstOr0(kids2)>>
     /\ p.exn = (IF kids1 = <<>> THEN <<>> ELSE <<kids1[1]>>)
     /\ p.kids = kids1 /\ p.akids = kids1
     /\ p.desc = desc /\ p.adesc = desc
     /\ p.aanc = FirstOr0(anc1)
     /\ p.aexn = (IF anc2 = <<>> THEN <<>> ELSE <<anc2[1]>>)
     /\ p.visit = LogAll(T, post)
     /\ p.once = Log(T, n)

Good(x) ==
  LET T == x.nodes IN
  /\ WellFormed(T, Len(x.text))
  /\ \A i \in 1..Len(x.leaves) : LeafOk(T, x.leaves[i])
  /\ \A i \in 1..Len(x.covers) : CoverOk(x, x.covers[i])
  /\ \A n \in 1..Len(x.per) : PerOk(T, n, x.per[n])
  /\ x.per = <<>> \/ Len(x.per) = Len(T)

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Good(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Good(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v
=============================================================================
