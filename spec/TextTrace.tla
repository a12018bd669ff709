------------------------------ MODULE TextTrace ------------------------------
(***************************************************************************)
(* Recorded answers of the text and range operations against Text.tla.     *)
(* What may be refused is recorded as a sequence: empty if it was refused. *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 64

ASSUME Agree(4)

No == <<>>
RangeOk(x) ==
  LET r == x.r  q == x.q  o == x.out IN
  IF ~IsRange(r) THEN o.make = No /\ o.read = No /\ o.len_make = No
  ELSE /\ o.make = <<r>>
       /\ o.read = <<r>>
       /\ o.len_make = <<r>>
       /\ o.len = RLen(r)
       /\ o.empty = REmpty(r)
       /\ o.show = "[" \o ToString(r[1]) \o "; " \o ToString(r[2]) \o ")"
       /\ o.shift = <<Shift(r, x.n)>>
       /\ o.touch = Touches(r, x.n)
       /\ IsRange(q) =>
            /\ o.sub = Subrange(r, q)
            /\ o.disjoint = Disjoint(r, q)
            /\ o.meets = ~Disjoint(r, q)
            /\ o.glue = IF Glue(r, q) = <<>> THEN No ELSE <<Glue(r, q)>>
            /\ o.order = Order(r, q)
            /\ o.eq = (r = q)
  
UnitOk(x) ==
  LET a == x.a  b == x.b  o == x.out IN
  /\ o.cmp = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ o.eq = (a = b)
  /\ o.add = a + b /\ o.add_n = a + b /\ o.add_to = a + b /\ o.sum = a + b + a
  /\ IF a >= b THEN o.sub = <<a - b>> /\ o.sub_n = <<a - b>> /\ o.sub_to = <<a - b>>
     ELSE o.sub = No /\ o.sub_n = No /\ o.sub_to = No
  /\ o.num = a /\ o.size = a

\* the bytes a chain of slices selects from n bytes starting at a0; <<>> when refused
RECURSIVE Window(_, _, _)
Window(a0, n, cuts) ==
  IF cuts = <<>> THEN <<a0, a0 + n>>
  ELSE LET c == Head(cuts)
           b == IF Len(c) = 2 THEN c[2] ELSE n
       IN IF c[1] > b \/ b > n THEN <<>> ELSE Window(a0 + c[1], b - c[1], Tail(cuts))
Sliced(s, cuts) ==
  LET w == Window(0, Bytes(s), cuts) IN
  IF w = <<>> THEN [ok |-> FALSE, s |-> <<>>]
  ELSE IF CharAt(s, w[1]) < 0 \/ CharAt(s, w[2]) < 0 THEN [ok |-> FALSE, s |-> <<>>]
  ELSE [ok |-> TRUE, s |-> Slice(s, w[1], w[2])]

TextOk(x) ==
  LET t == Sliced(x.s, x.cuts)
      s == t.s
      o == x.out[1]
      n == x.needle
      u == x.other
      c == Cmp(s, u)
  IN IF ~t.ok THEN x.out = No
     ELSE /\ x.out # No
          /\ o.str = s /\ o.cow = s /\ o.buf = s /\ o.shown = s /\ o.chars = s /\ o.json = s /\ o.rebuf = s
          /\ o.len = Bytes(s) /\ o.empty = (s = <<>>)
          /\ o.find = Find(n, s) /\ o.rfind = RFind(n, s)
          /\ o.has = (Find(n, s) # -1)
          /\ o.starts = IsPrefixAt(n, s, 0)
          /\ o.ends = (Len(n) <= Len(s) /\ IsPrefixAt(n, s, Len(s) - Len(n)))
          /\ o.trim = Trim(s)
          /\ \A k \in 1..Len(o.eqs) : o.eqs[k] = (s = u)
          /\ \A k \in 1..Len(o.cmps) : o.cmps[k] = c
          /\ o.lt = (c < 0) /\ o.le = (c <= 0) /\ o.gt = (c > 0) /\ o.ge = (c >= 0)
          /\ (s = u => o.hash)

\* raw edits (kept ranges in any order): applied as written, refused outside the text
RECURSIVE RawApply(_, _)
RawApply(s, ops) ==
  IF ops = <<>> THEN [ok |-> TRUE, s |-> <<>>]
  ELSE LET h == Head(ops)
           cut == IF h[1] = "c" THEN Sliced(s, <<<<h[2], h[3]>>>>) ELSE [ok |-> TRUE, s |-> h[2]]
           rest == RawApply(s, Tail(ops))
       IN [ok |-> cut.ok /\ rest.ok, s |-> cut.s \o rest.s]
EditOk(x) == LET e == RawApply(x.s, x.ops) IN IF e.ok THEN x.out = <<e.s>> ELSE x.out = No

Good(x) == CASE x.k = "range" -> RangeOk(x)
             [] x.k = "unit" -> UnitOk(x)
             [] x.k = "text" -> TextOk(x)
             [] x.k = "edit" -> EditOk(x)

VARIABLES c, v
Init == c \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride) /\ v = Good(Trace[c])
Next == /\ c + Stride <= Len(Trace)
        /\ c' = c + Stride
        /\ v' = Good(Trace[c'])
Spec == Init /\ [][Next]_<<c, v>>
Conforms == v
=============================================================================
