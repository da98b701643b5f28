------------------------------- MODULE TgdTrace -------------------------------
EXTENDS Tgd, Tr
VARIABLE l
E == Trace[l]
TgdOk == IF Term(E.c) = <<>> THEN E.rc # 0 ELSE E.rc = 0 /\ IsDelay(E.c, E.d, E.r)
MisOk == E.ref = 1
ClkOk == E.rc = 0 /\ IsClock(E.c, E.a, E.d, E.dt, E.r) /\ E.q = ClockRate(E.a, E.dt)
SbasOk == LET c == SbasLag(E.dt, E.c0, E.c1) s == E.dt - c IN
  /\ E.rc = 0 /\ E.ce = c /\ E.cr = E.c1
  /\ \A i \in 1..3 : /\ E.op[i] = SbasPos(E.p[i], E.v[i], E.a[i], s)
                     /\ E.ov[i] = SbasVel(E.v[i], E.a[i], s)
                     /\ E.oa[i] = E.a[i]
Ok == CASE E.e = "tgd" -> TgdOk
        [] E.e = "mis" -> MisOk
        [] E.e = "clk" -> ClkOk
        [] E.e = "sbas" -> SbasOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
