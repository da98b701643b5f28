---------------------------- MODULE WeekCycleTrace -----------------------------
EXTENDS WeekCycle, Tr
VARIABLE l
E == Trace[l]
\* one record: consecutive raw numbers against one reference
Ok == \A i \in 1..Len(E.r) : LET w == Resolve(E.raw + i - 1, E.ref, E.m)
                             IN w > 65535 \/ E.r[i] = w
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
