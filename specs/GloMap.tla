-------------------------------- MODULE GloMap --------------------------------
(* The GLONASS slot map: orbit slot -> frequency channel (0 = unknown), every   *)
(* change made while the caller-supplied lock is held.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SLOTS, FCNS          \* valid orbit slots and channels, 1..n
VARIABLES map, held            \* held: the lock is taken
gvars == <<map, held>>
Unknown == 0
GInit == map = [s \in SLOTS |-> Unknown] /\ held = FALSE
ValidReq(f, s) == s \in SLOTS /\ f \in FCNS
\* abstract effect of the operations
SetTo(m, f, s) == IF ValidReq(f, s) THEN [m EXCEPT ![s] = f] ELSE m
ClearOf(m, s) == [m EXCEPT ![s] = Unknown]
\* lookups: the lowest two slots on the channel, and how many of them
SlotsOf(m, f) == {s \in DOMAIN m : m[s] = f}
Least(S) == CHOOSE s \in S : \A t \in S : s <= t
Lookup(m, f) == LET P == SlotsOf(m, f) IN
  IF P = {} THEN <<0, 0, 0>>
  ELSE LET a == Least(P) Q == P \ {a}
       IN IF Q = {} THEN <<1, a, 0>> ELSE <<2, a, Least(Q)>>
===============================================================================
