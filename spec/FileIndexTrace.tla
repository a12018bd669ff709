--------------------------- MODULE FileIndexTrace ---------------------------
(* Recorded histories of real file indexes against FileSystem.tla: after   *)
(* every pause the index holds exactly what it should, and whatever a      *)
(* reader saw at any time was made for the path it stands under.           *)
EXTENDS FileSystem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(f) == {f[i] : i \in DOMAIN f}

\* h.names: the names in the history with their characters; files are taken if the part after the last
\* dot, which does not begin the name, is "x"
DOT == 46  X == 120
Extended(cs) == Len(cs) > 2 /\ cs[Len(cs)] = X /\ cs[Len(cs) - 1] = DOT
Names(h) == {e[1] : e \in Range(h.names)}
FilesOf(h) == {e[1] : e \in {q \in Range(h.names) : Extended(q[2])}}

Start(h) == [x \in UNION {Below(<<t>>, Names(h), 4) : t \in Range(h.tops)} |-> IF Len(x) = 1 THEN Dir ELSE None]

\* the file system after the first k changes; <<>> if one of them went otherwise
RECURSIVE After(_, _)
After(h, k) ==
  IF k = 0 THEN Start(h)
  ELSE LET prev == After(h, k - 1) e == h.ops[k] IN
       IF prev = <<>> THEN <<>>
       ELSE IF e.ok # Possible(prev, e.o) THEN <<>>
       ELSE IF e.ok THEN Changed(prev, e.o) ELSE prev

Entries(index) == {<<e[1], e[3]>> : e \in Range(index)}
Honest(h, index) ==
  /\ \A i, j \in DOMAIN index : i # j => index[i][1] # index[j][1]
  /\ \A e \in Range(index) : e[1] = e[2] /\ Named(FilesOf(h), e[1]) /\ UnderOne(Range(h.roots), e[1]) /\ e[3] > 0

Wrong(h) ==
  IF After(h, Len(h.ops)) = <<>> THEN "file system"
  ELSE IF \E s \in Range(h.snaps) : Entries(s.index) # Wanted(After(h, s.after), Range(h.roots), FilesOf(h)) THEN "index"
  ELSE IF \E r \in Range(h.readings) \cup {s.index : s \in Range(h.snaps)} : ~Honest(h, r) THEN "reading"
  ELSE IF h.stops # [j \in 1..h.size |-> j] THEN "stop"
  ELSE ""

VARIABLES c, v
Init == c \in 1..Len(Trace) /\ v = Wrong(Trace[c])
Next == FALSE /\ UNCHANGED <<c, v>>
Spec == Init /\ [][Next]_<<c, v>>
Conforms ==
  v = "" \/ (PrintT(<<"EXPECTED", ToJson([c |-> c, w |-> v,
     e |-> LET h == Trace[c] IN [i \in DOMAIN h.snaps |-> <<Entries(h.snaps[i].index), Wanted(After(h, h.snaps[i].after), Range(h.roots), FilesOf(h))>>]])>>) /\ FALSE)
=============================================================================
