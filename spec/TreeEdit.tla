------------------------------ MODULE TreeEdit ------------------------------
(***************************************************************************)
(* Structural edits.  The state is a tree and the operations recorded so   *)
(* far; an operation is <<kind, node, label>> or <<"sub", <<a, b>>, label>> *)
(* where the label stands for the inserted text.  Result says what text    *)
(* comes out: <<"t", o>> is the character at offset o of the old text.     *)
(* TLC explores all histories on all small trees; the driver replays them. *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils

CONSTANTS MaxOps, Emit
Trees == ndJsonDeserialize(IOEnv.TREES)

VARIABLES t, hist
vars == <<t, hist>>
T == Trees[t]

\* a substring replacement is a replacement of the node that covers the range
Target(tr, op) == IF op[1] = "sub" THEN Covering(tr, op[2]) ELSE op[2]
Kind(op) == IF op[1] = "sub" THEN "replace" ELSE op[1]
First(tr, h, n, kind) ==
  LET S == {i \in 1..Len(h) : Target(tr, h[i]) = n /\ Kind(h[i]) = kind}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

Chars(a, b) == [k \in 1..(b - a) |-> <<"t", a + k - 1>>]
Put(tr, op, n) ==
  IF op[1] = "sub"
  THEN Chars(From(tr, n), op[2][1]) \o <<<<"i", op[3]>>>> \o Chars(op[2][2], To(tr, n))
  ELSE <<<<"i", op[3]>>>>

RECURSIVE Out(_, _, _), OutAll(_, _, _)
Out(tr, h, n) ==
  IF First(tr, h, n, "delete") # 0 THEN <<>>
  ELSE IF First(tr, h, n, "replace") # 0 THEN Put(tr, h[First(tr, h, n, "replace")], n)
  ELSE (IF Kids(tr, n) = <<>> THEN Chars(From(tr, n), To(tr, n)) ELSE OutAll(tr, h, Kids(tr, n)))
       \o (IF First(tr, h, n, "insert") # 0 THEN <<<<"i", h[First(tr, h, n, "insert")][3]>>>> ELSE <<>>)
OutAll(tr, h, K) == IF K = <<>> THEN <<>> ELSE Out(tr, h, Head(K)) \o OutAll(tr, h, Tail(K))

Result(tr, h) == Out(tr, h, 1)

Nodes == 1..Len(T)
Ranges == {<<a, b>> \in (0..To(T, 1)) \X (0..To(T, 1)) : a <= b}

Init == t \in 1..Len(Trees) /\ hist = <<>>
Record(op) == hist' = Append(hist, op \o <<Len(hist) + 1>>) /\ UNCHANGED t
Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in Nodes, k \in {"delete", "replace", "insert"} : Record(<<k, n>>)
           \/ \E r \in Ranges : Record(<<"sub", r>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Targets == {Target(T, hist[i]) : i \in 1..Len(hist)}
Distinct == Cardinality(Targets) = Len(hist)

\* the order of recording does not matter
OrderFree == Distinct => Result(T, Reverse(hist)) = Result(T, hist)

Cut == {n \in Nodes : First(T, hist, n, "delete") # 0 \/ First(T, hist, n, "replace") # 0}
Inside(n) == \E a \in Range(Ancestors(T, Parent(T, n))) : a \in Cut

\* operations inside a deleted or replaced node have no effect
NoEffectInside ==
  Result(T, hist) = Result(T, SelectSeq(hist, LAMBDA op : ~Inside(Target(T, op))))

\* every character outside the deleted and replaced nodes stays, once and in order
Kept == SelectSeq(Result(T, hist), LAMBDA x : x[1] = "t")
Untouched ==
  /\ \A i, j \in 1..Len(Kept) : i < j => Kept[i][2] < Kept[j][2]
  /\ \A o \in 0..(To(T, 1) - 1) :
       (~\E n \in Cut : From(T, n) <= o /\ o < To(T, n)) => <<"t", o>> \in Range(Kept)

\* a lone insertion, deletion or replacement does what it says
Alone ==
  Len(hist) = 1 =>
    LET op == hist[1]  L == To(T, 1) IN
    Result(T, hist) =
      CASE op[1] = "sub" -> Chars(0, op[2][1]) \o <<<<"i", 1>>>> \o Chars(op[2][2], L)
        [] op[1] = "delete" -> Chars(0, From(T, op[2])) \o Chars(To(T, op[2]), L)
        [] op[1] = "replace" -> Chars(0, From(T, op[2])) \o <<<<"i", 1>>>> \o Chars(To(T, op[2]), L)
        [] op[1] = "insert" -> Chars(0, To(T, op[2])) \o <<<<"i", 1>>>> \o Chars(To(T, op[2]), L)

Emitted == Emit => PrintT(<<"HISTORY", ToJson([t |-> t, h |-> hist, out |-> Result(T, hist)])>>)
=============================================================================
