------------------------------ MODULE BdsNavTrace ------------------------------
EXTENDS BdsNav, Tr
VARIABLE l
E == Trace[l]
UnitsOk(Fs) == \A f \in Fs : E.u[f.n][1] = f.u[1] /\ E.u[f.n][2] = f.u[2]
Values(m, Fs) == \A f \in Fs : E.v[f.n] = Value(m, f)
EphOk ==
  LET m == <<WordsBits(E.w[1], 1), WordsBits(E.w[2], 1), WordsBits(E.w[3], 1)>>
  IN /\ Values(m, EphFields)
     /\ E.toewn = Week(m) /\ E.tocwn = Week(m)
     /\ E.iode = Issue(m, "toe") /\ E.iodc = Issue(m, "toc")
     /\ E.ura = UraTable[Plain(m, UraF) + 1]
     /\ E.crc = Identity(m)
     /\ E.src = 0 /\ E.sid = E.osid
IonoOk == LET m == <<WordsBits(E.w, 1)>>
          IN Values(m, IonoFields) /\ E.wn = Week(m)
Ok == CASE E.e = "units" -> UnitsOk(IF E.m = "eph" THEN EphFields ELSE IonoFields)
        [] E.e = "eph" -> EphOk
        [] E.e = "iono" -> IonoOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
