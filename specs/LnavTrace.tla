------------------------------- MODULE LnavTrace -------------------------------
EXTENDS Lnav, Tr
VARIABLE l
E == Trace[l]
Sub(ws) == WordsBits(ws, 3)
UnitsOk(Fs) == \A f \in Fs : E.u[f.n][1] = f.u[1] /\ E.u[f.n][2] = f.u[2]
Units == CASE E.m = "eph" -> UnitsOk(EphFields)
           [] E.m = "iono" -> UnitsOk(IonoFields)
           [] E.m = "utc" -> UnitsOk(UtcFields)
           [] E.m = "alm" -> UnitsOk(AlmFields)
Values(m, Fs) == \A f \in Fs : E.v[f.n] = Value(m, f)
EphOk ==
  LET m == <<Sub(E.w[1]), Sub(E.w[2]), Sub(E.w[3])>>
      toe == ToeOf(m, E.tot, E.ref)
      ura == Plain(m, UraF)
  IN /\ Values(m, EphFields)
     /\ E.toewn = toe[1] /\ E.tocwn = toe[1]
     /\ E.ura = UraTable[ura + 1]
     /\ E.fit = 3600 * FitHours(Plain(m, FitF), Plain(m, EF("iodc")))
     /\ E.valid = Bool(EphValid(m))
     /\ E.src = 0 /\ E.tgd1 = 0 /\ E.same = 1
IonoOk == LET m == <<Sub(E.w)>> ok == IsPage(m, 56)
          IN /\ E.ok = Bool(ok)
             /\ ok => Values(m, IonoFields)
Close(t, x) == LET df == (t[3] - x[3]) + 1048576 * ((t[2] - x[2]) + WeekS * (t[1] - x[1]))
               IN t[1] - x[1] \in -1..1 /\ (t[2] - x[2]) + WeekS * (t[1] - x[1]) \in -200..200 /\ df \in -6..6
UtcPageOk == LET m == <<Sub(E.w)>> ok == UtcOk(m)
          IN /\ E.ok = Bool(ok)
             /\ ok => /\ Values(m, UtcFields)
                      /\ E.totwn = Resolve(Plain(m, WntF), E.ref, 256)
                      /\ Close(E.lse, LseOf(m, E.ref)) /\ E.norm = 1
AlmPageOk == LET m == <<Sub(E.w)>> ok == AlmOk(m) wk == IsPage(m, 51) he == IsPage(m, 51) \/ IsPage(m, 63)
          IN /\ E.ok = Bool(ok)
             /\ ok => /\ Values(m, AlmFields)
                      /\ E.valid = 1 /\ E.sat = Plain(m, PageF) /\ E.code = 0
                      /\ E.fit = 504000 /\ E.ura = 900 /\ E.wn = -1
             /\ E.rok = Bool(wk)
             /\ wk => /\ E.wna = Resolve(Plain(m, WnaF), E.ref, 256)
                      /\ <<E.toa \div 65536, E.toa % 65536>> = Pair(4096 * Plain(m, ToaF))
             /\ E.hok = Bool(he)
             /\ he => \A sv \in 1..32 : <<E.hv[sv], E.hb[sv]>> = HealthOf(m, sv)
Ok == CASE E.e = "units" -> Units
        [] E.e = "eph" -> EphOk
        [] E.e = "iono" -> IonoOk
        [] E.e = "utc" -> UtcPageOk
        [] E.e = "alm" -> AlmPageOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
