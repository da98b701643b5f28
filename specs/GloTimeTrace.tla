------------------------------ MODULE GloTimeTrace -----------------------------
EXTENDS GloTime, Tr
VARIABLE l
E == Trace[l]
Tps == 1024
TicksPerWeek == 619315200
P == IF E.use = 1 THEN [use |-> 1, a0 |-> E.a0, lse |-> E.lse, ls |-> E.ls, lsf |-> E.lsf]
     ELSE [use |-> 0, a0 |-> 0, lse |-> <<0, 0>>, ls |-> 0, lsf |-> 0]
Unknown == <<-1, -1024>>
Ok == CASE E.e = "fwd" -> LET p == P g == GloOf(E.t, p)
                          IN E.x = 1 /\ E.g = g /\ E.back = GpsOfGlo(g, p)
        [] E.e = "bwd" -> E.x = 1 /\ E.t = IF ~ValidDay(E.g) THEN Unknown ELSE GpsOfGlo(E.g, P)
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
