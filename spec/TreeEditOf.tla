----------------------------- MODULE TreeEditOf -----------------------------
(* The results TreeEdit.tla defines for given trees and histories.         *)
EXTENDS TreeEdit

Given == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
Say(k) == PrintT(<<"OUT", ToJson([c |-> k, outs |-> [i \in 1..Len(Given[k].hs) |-> Result(Given[k].nodes, Given[k].hs[i])]])>>)
OfInit == c = 1 /\ t = 1 /\ hist = <<>> /\ Say(1)
OfNext == c < Len(Given) /\ c' = c + 1 /\ Say(c + 1) /\ UNCHANGED <<t, hist>>
OfSpec == OfInit /\ [][OfNext]_<<c, t, hist>>
=============================================================================
