------------------------------ MODULE FileIndex ------------------------------
(***************************************************************************)
(* The file index: a thread that watches some roots and keeps, for every   *)
(* indexed file under them, what the mapper makes of its contents.         *)
(*                                                                         *)
(* The file system is changed by others at any moment, in particular while *)
(* the thread lists a directory or maps a file.  The notification service  *)
(* is the environment: once a root is watched, every change of a path      *)
(* below it is reported at some later moment, in any order, possibly       *)
(* together with other changes of the same path.                           *)
(*                                                                         *)
(* Machine = "new" is the index as it should be; "old" is the one found in *)
(* the repository, kept to show that the invariant can tell them apart.    *)
(***************************************************************************)
EXTENDS FileSystem, TLC, Json, IOUtils

CONSTANTS RootNames,  \* the directories indexed
          Tops,       \* all top level directories, roots or not
          FileNames,  \* names the index takes as files, if files have them
          OtherNames, \* names it ignores
          Contents,   \* what files hold: 0 is what the mapper refuses
          Depth,      \* the number of names below a top
          MaxOps, MaxPre,
          Machine,
          Emit

Roots == {<<r>> : r \in RootNames}
Paths == UNION {Below(<<t>>, FileNames \cup OtherNames, Depth) : t \in Tops}
Taken(p) == Named(FileNames, p)

-----------------------------------------------------------------------------
VARIABLES fs,       \* path -> None, Dir or contents
          pend,     \* paths with a report under way
          busy,     \* paths changed since everything was last quiet, and those of them that are new directories
          watched,  \* the roots watched so far
          idx,      \* path -> contents, or None
          th,       \* the thread
          hist, n
vars == <<fs, pend, busy, watched, idx, th, hist, n>>

Nowhere == [x \in Paths |-> None]
Th(pc, path, todo, cur, seen, local, scan) ==
  [pc |-> pc, path |-> path, todo |-> todo, cur |-> cur, seen |-> seen, local |-> local, scan |-> scan]

Init ==
  /\ fs = [x \in Paths |-> IF x[1] \in Tops /\ Len(x) = 1 THEN Dir ELSE None]
  /\ pend = {} /\ busy = [at |-> {}, made |-> {}] /\ watched = {} /\ idx = Nowhere
  /\ th = Th("off", <<>>, {}, <<>>, None, Nowhere, Roots)
  /\ hist = <<>> /\ n = 0

-----------------------------------------------------------------------------
Slots == {x \in Paths : Len(x) > 1 /\ fs[ParentOf(x)] = Dir}
Present == {x \in Slots : fs[x] # None}
OpsOf(k) == {o \in CASE k = "write" -> {[op |-> k, p |-> p, c |-> c] : p \in Slots, c \in Contents}
                    [] k \in {"mkdir", "rm"} -> {[op |-> k, p |-> p] : p \in Slots}
                    [] k = "mv" -> {[op |-> k, p |-> p, q |-> q] : p \in Present, q \in Slots}
              : Possible(fs, o) /\ Fits(fs, o)}
Kinds == {"write", "mkdir", "rm", "mv"}

(* The environment.  Reports of related changes that follow each other     *)
(* closely are merged by the notification service in ways that may lose    *)
(* some, so that changes of related paths wait until the earlier ones have *)
(* been reported; what happens below a directory just made may follow at   *)
(* once.                                                                   *)
Apart(o) == \A p \in Touched(o), q \in busy.at : Related(p, q) => (q \in busy.made /\ q # p /\ IsPrefix(q, p) /\ o.op # "rm")
When == IF th.pc = "off" THEN [at |-> "pre", p |-> <<>>]
        ELSE IF th.pc = "opened" THEN [at |-> "before", p |-> th.cur]
        ELSE IF th.pc = "read" THEN [at |-> "after", p |-> th.cur]
        ELSE [at |-> "free", p |-> <<>>]
Change(o) ==
  /\ n < (IF th.pc = "off" THEN MaxPre ELSE MaxOps)
  /\ th.pc # "off" => Apart(o)
  /\ fs' = Changed(fs, o)
  /\ pend' = pend \cup {x \in Reported(fs, o) : \E r \in watched : IsPrefix(r, x)}
  /\ busy' = IF th.pc = "off" THEN busy
             ELSE [at |-> busy.at \cup Touched(o), made |-> IF o.op = "mkdir" THEN busy.made \cup {o.p} ELSE busy.made]
  /\ n' = n + 1
  /\ hist' = IF Emit THEN Append(hist, [at |-> When.at, file |-> When.p, o |-> o]) ELSE hist
  /\ UNCHANGED <<watched, idx, th>>

\* everything is quiet
Quiet == th.pc = "idle" /\ th.scan = {} /\ pend = {} /\ watched = Roots
Settle ==
  /\ Quiet /\ busy.at # {}
  /\ busy' = [at |-> {}, made |-> {}]
  /\ hist' = IF Emit THEN Append(hist, [at |-> "settle"]) ELSE hist
  /\ UNCHANGED <<fs, pend, watched, idx, th, n>>

-----------------------------------------------------------------------------
(* The thread.                                                             *)
Start == /\ th.pc = "off"
         /\ th' = [th EXCEPT !.pc = "idle"]
         /\ n' = 0
         /\ UNCHANGED <<fs, pend, busy, watched, idx, hist>>

Watch == /\ th.pc = "idle" /\ watched # Roots
         /\ Machine = "old" => th.scan = {}
         /\ \E r \in Roots \ watched : watched' = watched \cup {r}
         /\ UNCHANGED <<fs, pend, busy, idx, th, hist, n>>

Take == /\ th.pc = "idle"
        /\ \/ /\ Machine = "new" => watched = Roots
              /\ \E r \in th.scan : th' = Th("list", r, {r}, <<>>, None, Nowhere, th.scan \ {r})
              /\ UNCHANGED pend
           \/ /\ th.scan = {} /\ watched = Roots
              /\ \E p \in pend :
                   \* a report may come early, while another one about the path still follows
                   /\ pend' = pend \ {p}
                   /\ th' = Th("list", p, {p}, <<>>, None, Nowhere, th.scan)
        /\ UNCHANGED <<fs, busy, watched, idx, hist, n>>

Children(x) == {y \in Paths : Len(y) = Len(x) + 1 /\ IsPrefix(x, y) /\ fs[y] # None}
Walk == /\ th.pc = "list" /\ th.todo # {}
        /\ LET x == CHOOSE x \in th.todo : TRUE IN
           th' = IF fs[x] = Dir THEN [th EXCEPT !.todo = (@ \ {x}) \cup Children(x)]
                 ELSE IF fs[x] # None /\ Taken(x) THEN [th EXCEPT !.todo = @ \ {x}, !.pc = "opened", !.cur = x]
                 ELSE [th EXCEPT !.todo = @ \ {x}]
        /\ UNCHANGED <<fs, pend, busy, watched, idx, hist, n>>
Read == /\ th.pc = "opened"
        /\ th' = [th EXCEPT !.pc = "read", !.seen = IF fs[th.cur] > 0 THEN fs[th.cur] ELSE None]
        /\ UNCHANGED <<fs, pend, busy, watched, idx, hist, n>>
Close == /\ th.pc = "read"
         /\ th' = [th EXCEPT !.pc = "list", !.local[th.cur] = th.seen, !.seen = None, !.cur = <<>>]
         /\ UNCHANGED <<fs, pend, busy, watched, idx, hist, n>>

\* what the old index does with what it found; it asks again what the path is, which is left out here
Stored ==
  IF Machine = "new" THEN [x \in Paths |-> IF IsPrefix(th.path, x) THEN th.local[x] ELSE idx[x]]
  ELSE [x \in Paths |-> IF th.local[x] # None THEN th.local[x]
                        ELSE IF x = th.path /\ fs[x] # Dir /\ (fs[x] = None \/ Taken(x)) THEN None ELSE idx[x]]
Store == /\ th.pc = "list" /\ th.todo = {}
         /\ idx' = Stored
         /\ th' = Th("idle", <<>>, {}, <<>>, None, Nowhere, th.scan)
         /\ UNCHANGED <<fs, pend, busy, watched, hist, n>>

\* when histories are drawn at random, one change competes with one step of the thread
Drawn == LET ks == {k \in Kinds : \E o \in OpsOf(k) : th.pc = "off" \/ Apart(o)} IN
         IF ks = {} THEN {} ELSE {RandomElement({o \in OpsOf(RandomElement(ks)) : th.pc = "off" \/ Apart(o)})}
Next == (\E o \in (IF Emit THEN Drawn ELSE UNION {OpsOf(k) : k \in Kinds}) : Change(o)) \/ Settle \/ Start \/ Watch \/ Take \/ Walk \/ Read \/ Close \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Watch \/ Take \/ Walk \/ Read \/ Close \/ Store)

-----------------------------------------------------------------------------
Index == {<<p, idx[p]>> : p \in {x \in Paths : idx[x] # None}}
Converged == Quiet => Index = Wanted(fs, Roots, FileNames)
\* a value was produced for its path: files only, of the right name, below a root
Proper == \A e \in Index : UnderOne(Roots, e[1]) /\ Taken(e[1]) /\ e[2] > 0
\* once nothing changes any more everything becomes quiet
Settles == (n >= MaxOps) ~> Quiet
View == <<fs, pend, busy, watched, idx, th, n>>

\* a history is emitted when all its changes are done and everything is quiet again
Done == ~(Emit /\ Quiet /\ n = MaxOps /\ busy.at = {})
EmitInv == Done \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
