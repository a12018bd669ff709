------------------------------ MODULE QueryDB ------------------------------
(***************************************************************************)
(* The query database of an analysis, shared between threads.  A query is  *)
(* looked up in the cache of its kind, and on a miss computed with no lock *)
(* held, asking other queries; its value is then stored together with the  *)
(* problems it found unless another thread was faster.  A step of this     *)
(* machine runs one thread from one acquisition of a lock to the next.     *)
(*                                                                         *)
(* Whatever the interleaving: every answer is the one a single thread      *)
(* gets, the problems of a query are listed once and before any thread     *)
(* has its answer, and the machine never gets stuck.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

\* per thread, the queries asked from outside; whether to print the schedule of finished behaviours
Programs == JsonDeserialize(IOEnv.PROGRAMS)
Emit == IOEnv.EMIT = "yes"

\* A small database: 1 all rules, 2 all contexts, 3 and 4 calls, 5 a reference, 6 unused rules.
Queries == 1..6
Kind == <<1, 2, 3, 3, 4, 5>>
Deps == <<<<>>, <<>>, <<1, 2>>, <<1, 2>>, <<1>>, <<5, 3, 4>>>>
Found == <<{"duplicate"}, {"once"}, {}, {"bad call"}, {"unresolved"}, {"unused"}>>
Kinds == 1..5
Threads == DOMAIN Programs

RECURSIVE ValueOf(_)
ValueOf(q) == <<q, [i \in 1..Len(Deps[q]) |-> ValueOf(Deps[q][i])]>>

VARIABLES cache,    \* per query: <<>> or <<its value>>
          problems, \* the problems listed so far
          owner,    \* who holds the lock of each kind, and of the list of problems (kind 0)
          stack,    \* per thread: the queries being computed, innermost last
          next,     \* per thread: how much of its program it has asked
          got,      \* per thread: the answers received
          sched     \* who ran
vars == <<cache, problems, owner, stack, next, got, sched>>
view == <<cache, problems, owner, stack, next, got>>

Nobody == 0
Frame(q) == [q |-> q, at |-> "look", args |-> <<>>]
Top(t) == stack[t][Len(stack[t])]
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)

Init == /\ cache = [q \in Queries |-> <<>>]
        /\ problems = <<>>
        /\ owner = [k \in {0} \cup Kinds |-> Nobody]
        /\ stack = [t \in Threads |-> <<Frame(Programs[t][1])>>]
        /\ next = [t \in Threads |-> 1]
        /\ got = [t \in Threads |-> <<>>]
        /\ sched = <<>>

\* What becomes of a thread that has the answer v: of its caller, or of its program.
Answered(t, v) ==
  LET s == Pop(t) IN
  IF s = <<>>
  THEN /\ got' = [got EXCEPT ![t] = Append(@, v)]
       /\ next' = [next EXCEPT ![t] = @ + 1]
       /\ stack' = [stack EXCEPT ![t] = IF next[t] < Len(Programs[t]) THEN <<Frame(Programs[t][next[t] + 1])>> ELSE <<>>]
  ELSE LET f == s[Len(s)]
           a == Append(f.args, v)
           g == [f EXCEPT !.args = a, !.at = IF Len(a) = Len(Deps[f.q]) THEN "store" ELSE "ask"]
           base == [s EXCEPT ![Len(s)] = g]
       IN /\ stack' = [stack EXCEPT ![t] = IF g.at = "ask" THEN Append(base, Frame(Deps[f.q][Len(a) + 1])) ELSE base]
          /\ UNCHANGED <<got, next>>

\* the look-up takes and gives back the lock of the kind in one step
Look(t) ==
  /\ stack[t] # <<>> /\ Top(t).at = "look" /\ owner[Kind[Top(t).q]] = Nobody
  /\ LET q == Top(t).q IN
     IF cache[q] # <<>>
     THEN Answered(t, cache[q][1])
     ELSE LET g == [Top(t) EXCEPT !.at = IF Deps[q] = <<>> THEN "store" ELSE "ask"]
              base == [stack[t] EXCEPT ![Len(stack[t])] = g]
          IN /\ stack' = [stack EXCEPT ![t] = IF g.at = "ask" THEN Append(base, Frame(Deps[q][1])) ELSE base]
             /\ UNCHANGED <<got, next>>
  /\ UNCHANGED <<cache, problems, owner>>

\* store: take the lock of the kind; if nobody was faster go on to the list of problems under it
Store(t) ==
  /\ stack[t] # <<>> /\ Top(t).at = "store" /\ owner[Kind[Top(t).q]] = Nobody
  /\ LET q == Top(t).q IN
     IF cache[q] # <<>>
     THEN /\ Answered(t, cache[q][1])
          /\ UNCHANGED owner
     ELSE /\ stack' = [stack EXCEPT ![t][Len(stack[t])].at = "list"]
          /\ owner' = [owner EXCEPT ![Kind[q]] = t]
          /\ UNCHANGED <<got, next>>
  /\ UNCHANGED <<cache, problems>>

List(t) ==
  /\ stack[t] # <<>> /\ Top(t).at = "list" /\ owner[0] = Nobody
  /\ LET q == Top(t).q
         v == <<q, Top(t).args>>
     IN /\ problems' = Append(problems, q)
        /\ cache' = [cache EXCEPT ![q] = <<v>>]
        /\ owner' = [owner EXCEPT ![Kind[q]] = Nobody]
        /\ Answered(t, v)

Step(t) == (Look(t) \/ Store(t) \/ List(t)) /\ sched' = Append(sched, t - 1)
Done == \A t \in Threads : stack[t] = <<>>
Next == \/ \E t \in Threads : Step(t)
        \/ ~Emit /\ Done /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Once == \A i, j \in 1..Len(problems) : problems[i] = problems[j] => i = j
Right == \A t \in Threads : \A i \in 1..Len(got[t]) : got[t][i] = ValueOf(Programs[t][i])
\* who has an answer finds its problems, and those of everything asked for it, in the list
RECURSIVE Needed(_)
Needed(q) == {q} \cup UNION {Needed(Deps[q][i]) : i \in 1..Len(Deps[q])}
Listed == \A t \in Threads : \A i \in 1..Len(got[t]) : Needed(Programs[t][i]) \subseteq {problems[j] : j \in 1..Len(problems)}
Exactly == \A q \in Queries : (cache[q] # <<>>) <=> (\E i \in 1..Len(problems) : problems[i] = q)
Ends == <>Done
Report == ~(Emit /\ Done) \/ PrintT(<<"SCHEDULE", ToJson([s |-> sched])>>)
=============================================================================
