----------------------------- MODULE LeapEdgeTrace -----------------------------
EXTENDS LeapEdge, Tr
VARIABLE l
E == Trace[l]
Tps == 1024
TicksPerWeek == 619315200
Fine == 1073741824
\* Day E.m[2] of week E.m[1] ends at the midnight; instants are recorded from
\* GPS = that midnight + E.ls seconds.  A broadcast polynomial shifts the end of
\* 23:59:59 by a0 2^-30 s + a1 2^-50 of the 128 E.k seconds since its epoch.
D == Day0 + 7 * E.m[1] + E.m[2] - 1
Shift == <<0, E.a0 + ((E.a1 * E.k) \div 8192)>>
Known == E.use = 0 => LET n == Cardinality({i \in 1..Len(LeapDays) : Leq(Midnights[i], AtDay(D, 0))})
                      IN /\ E.leap = 1 /\ E.ls = n
                         /\ Civil(D) = LeapDays[n + 1]
X == FMinus(E.x, Shift)
\* nanoseconds one way, about a microsecond back
Tight == 8
Loose == 2148
Away(s) == ~FNear(X, <<s, 0>>, Tight)
After(s) == X[1] >= s
\* E.utc: <<y, day of year, m, d, weekday, h, min, s, fine ticks>>
UtcRead == LET u == E.utc IN <<DayNo(u[1], u[3], u[4]), u[6], u[7], u[8], u[9]>>
UtcForm == LET u == E.utc d == DayNo(u[1], u[3], u[4])
           IN /\ u[3] \in 1..12 /\ u[4] \in 1..MonthLen(u[1], u[3])
              /\ u[2] = YearDay(d) /\ u[5] = WeekDay(d)
\* E.glo: <<n4, nt, h, min, s, fine ticks>>
GloRead == LET g == E.glo IN <<CycleStart(g[1]) + g[2] - 1, g[3], g[4], g[5], g[6]>>
Edge == /\ Known /\ E.fr = 1 /\ UtcForm /\ Proper(UtcRead, D, E.leap)
        /\ FNear(UtcMeant(UtcRead, D, E.leap), X, Tight)
        /\ (Away(0) /\ Away(1)) => E.il = Bool(E.leap = 1 /\ After(0) /\ ~After(1))
        /\ Away(1) => FNear(E.off, FPlus(Shift, <<IF After(1) THEN E.leap ELSE 0, 0>>), Tight)
        /\ FNear(E.back, E.x, Loose)
UEdge == FNear(FMinus(E.back, Shift), UtcMeant(UtcRead, D, E.leap), Loose)
GBack == FNear(E.back, GloMeant(GloRead, D, E.leap), Loose)
GEdge == /\ Known /\ E.fr = 1 /\ ValidDay(E.glo) /\ Proper(GloRead, D, E.leap)
         /\ FNear(GloMeant(GloRead, D, E.leap), X, Tight)
         /\ GBack
Ok == CASE E.e = "edge" -> Edge
        [] E.e = "uedge" -> UEdge
        [] E.e = "gedge" -> GEdge
        [] E.e = "guedge" -> GBack
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
