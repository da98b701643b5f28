---------------------------------- MODULE ObsTrace -------------------------------
EXTENDS Obs, Tr
VARIABLE l
E == Trace[l]
ObsOk == /\ E.same = 1
         /\ Sane(E.pc) /\ Close(E.pc, Range(E.p, E.b), E12(1))
         /\ Sane(E.lc) /\ Close(E.lc, Phase(E.ph, E.f, E.b), E12(1))
         /\ Sane(E.dc) /\ Close(E.dc, Doppler(E.d, E.f, E.r), E12(1))
Ok == CASE E.e = "obs" -> ObsOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
