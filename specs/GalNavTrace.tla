------------------------------ MODULE GalNavTrace ------------------------------
EXTENDS GalNav, Tr
VARIABLE l
E == Trace[l]
Units == \A f \in EphFields : E.u[f.n][1] = f.u[1] /\ E.u[f.n][2] = f.u[2]
EphOk ==
  LET m == [i \in 1..5 |-> Bits(E.w[i])]
      ok == Complete(m)
  IN /\ E.ok = Bool(ok) /\ E.same = 1
     /\ ok => /\ \A f \in EphFields : E.v[f.n] = Value(m, f)
              /\ E.iodc = Plain(m, EF("iod"))
              /\ E.toe = Toe(m) /\ E.toc = Toc(m)
              /\ E.ura = 100 * SisaCm(Plain(m, SisaF))
              /\ E.valid = Bool(EphValid(m))
              /\ E.sat = Plain(m, SatF) /\ E.code = E.code0
              /\ E.fit = 14400 /\ E.src = 0
Ok == CASE E.e = "units" -> Units
        [] E.e = "eph" -> EphOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
