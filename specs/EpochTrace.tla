------------------------------ MODULE EpochTrace ------------------------------
(* Solution epochs: time of week in eighths of an epoch of the record's rate.   *)
EXTENDS Integers, Tr
VARIABLE l
E == Trace[l]
T(n) == INSTANCE Time WITH WK <- n
\* a decimal rate makes times of week inexact: right at an epoch the value may be
\* just below it
Ok == LET n == E.a IN
  CASE E.e = "round" -> E.near = 1 /\ E.in = 1 /\ E.t \in T(E.wk)!Rounds(n, 8)
    [] E.e = "floor" -> /\ E.near = 1 /\ E.in = 1
                        /\ \/ E.t \in T(E.wk)!Floors(n, 8)
                           \/ /\ E.dec = 1
                              /\ n[2] % 8 = 0
                              /\ E.t \in T(E.wk)!Floors(<<n[1], n[2] - 1>>, 8)
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
