----------------------------- MODULE PurityTrace -----------------------------
(* Recorded calls of the library.  A call that is the first of its process     *)
(* tells what its arguments stand for (given the GLONASS channel map, the one  *)
(* registry that may be read); the same call at any later time, and whatever   *)
(* other calls run while it is under way, has the same outcome, leaves its     *)
(* arguments as they were and the storage around them alone.                   *)
EXTENDS Purity, Tr
VARIABLES l, memo, map, open
E == Trace[l]
vars == <<l, memo, map, open>>
Idle == [p \in {"a", "b", "c"} |-> ""]
TInit == l = 1 /\ memo = NoAnswers /\ map = 0 /\ open = Idle
Key == <<E.f, map>>
Clean == E.in = 1 /\ E.g = 1
Step ==
  CASE E.e = "begin" -> memo' = NoAnswers /\ open' = Idle /\ map' = 0
    [] E.e \in {"process", "map"} -> open = Idle /\ map' = E.g /\ UNCHANGED <<memo, open>>
    [] E.e = "fresh" -> Clean /\ memo' = Learn(memo, Key, E.r) /\ UNCHANGED <<map, open>>
    [] E.e = "enter" -> open[E.p] = "" /\ open' = [open EXCEPT ![E.p] = E.f] /\ UNCHANGED <<memo, map>>
    [] E.e = "return" -> open[E.p] = E.f /\ Clean /\ Answer(memo, Key, E.r)
                         /\ open' = [open EXCEPT ![E.p] = ""] /\ UNCHANGED <<memo, map>>
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
===============================================================================
