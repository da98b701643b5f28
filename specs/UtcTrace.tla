-------------------------------- MODULE UtcTrace -------------------------------
EXTENDS Utc, Tr
VARIABLE l
E == Trace[l]
Tps == 1024
TicksPerWeek == 619315200
P == IF E.use = 1 THEN [use |-> 1, a0 |-> E.a0, lse |-> E.lse, ls |-> E.ls, lsf |-> E.lsf]
     ELSE [use |-> 0, a0 |-> 0, lse |-> <<0, 0>>, ls |-> 0, lsf |-> 0]
\* a recorded date <<y, m, d, h, mi, ticks of the minute>> as <<day, ticks>>
Of(x) == Carry(DayNo(x[1], x[2], x[3]), ((x[4] * 60 + x[5]) * 60) * TS + x[6])
WellFormed(x) == x[2] \in 1..12 /\ x[3] \in 1..MonthLen(x[1], x[2]) /\ x[4] \in 0..23 /\ x[5] \in 0..59
\* conversions from a day count to fields, to within rounding
OfU(u) == Carry(DayNo(u[1], u[3], u[4]), TicksOf(u[6], u[7], u[8], u[9]))
FormU(u) == /\ u[3] \in 1..12 /\ u[4] \in 1..MonthLen(u[1], u[3])
            /\ u[2] = Before(u[1], u[3]) + u[4]
            /\ u[5] = WeekDay(DayNo(u[1], u[3], u[4]))
            /\ u[6] \in 0..23 /\ u[7] \in 0..59 /\ u[8] \in 0..59 /\ u[9] \in 0..TS
Cv == LET p == P
          u == UtcOf(E.t, p)
          c == Carry(u[1], u[2])       \* the day count knows no 61st second
          f == Fields(u)
          g == GpsOf(c, p)
      IN /\ E.utc = f
         /\ E.off = Offset(E.t, p)
         /\ E.il = Bool(InLeap(E.t, p))
         /\ E.near = 1
         /\ Normalise(E.back) = E.t
         /\ E.mjd = c /\ E.umjd = c
         /\ Normalise(E.mjdg) = g
         /\ E.date = <<f[1], f[3], f[4], f[6], f[7], f[8] * TS + f[9]>>
         /\ Normalise(E.dateg) = g
         /\ E.use = 0 => LET x == Norm(E.t[1], E.t[2] - Offset(E.t, p))
                         IN /\ E.unix = <<Day0 + 7 * x[1] + (x[2] \div DT) - 40587, (x[2] % DT) \div TS>>
                            /\ E.doy = f[2] - 1
         /\ "mjd0" \in DOMAIN E => /\ E.mjd0 = c /\ Normalise(E.mjdg0) = g
                                   /\ E.date0 = E.date /\ Normalise(E.dateg0) = g
DateOk == LET d == Of(E.in)
          IN /\ E.near = 1 /\ E.mjd = d
             /\ WellFormed(E.out) /\ Of(E.out) = d
             /\ E.dim = MonthLen(E.in[1], E.in[2]) /\ E.leap = Bool(IsLeap(E.in[1]))
             /\ E.post = 1 => /\ FormU(E.utc) /\ OfU(E.utc) = d
                              /\ FormU(E.utc2) /\ OfU(E.utc2) = d
\* GPS weeks from the Unix epoch: day 3657 is 6 January 1980
AfterRef(r) == LET d == E.in[1] - 3657 - 7 * r IN d > 0 \/ (d = 0 /\ E.in[2] > 0)
UnixOk == /\ E.ok = Bool(E.in[1] >= 0 /\ AfterRef(E.ref))
          /\ E.ok0 = Bool(E.in[1] >= 0 /\ AfterRef(1876))
          /\ "t" \in DOMAIN E => LET d == E.in[1] - 3657
                                 IN E.near = 1 /\ E.t = <<d \div 7, (d % 7) * DT + E.in[2] * TS>>
OffOk == LET poly(x) == E.a0 + E.a1 * x + E.a2 * x * x
             g == poly(E.dt)
             u == poly(E.dt + E.ls)
         IN /\ E.near = 1
            /\ E.g2u = g + TS * (IF E.rel >= TS THEN E.lsf ELSE E.ls)
            /\ E.u2g = -(u + TS * (IF E.rel >= -(TS * E.ls) - u THEN E.lsf ELSE E.ls))
Ok == CASE E.e = "cv" -> Cv
        [] E.e = "date" -> DateOk
        [] E.e = "unix" -> UnixOk
        [] E.e = "off" -> OffOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
