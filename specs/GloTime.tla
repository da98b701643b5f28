--------------------------------- MODULE GloTime -------------------------------
(* GLONASS time: Moscow time (UTC + 3 h, so the inserted second ends 02:59) as   *)
(* four-year cycle, day of the cycle and time of day.                           *)
EXTENDS Utc
H3 == 10800 * TS
\* UTC <<day, ticks>> to Moscow <<day, h, m, ticks of the minute>>
Moscow(u) == LET c == Clock(u[2]) h == c[1] + 3
             IN IF h >= 24 THEN <<u[1] + 1, h - 24, c[2], c[3] * TS + c[4]>>
                ELSE <<u[1], h, c[2], c[3] * TS + c[4]>>
Cycle(y) == ((y - 1996) \div 4) + 1
CycleStart(n4) == Jan1(1996 + 4 * (n4 - 1))
\* <<n4, nt, h, m, ticks>>
GloOfUtc(u) == LET w == Moscow(u) n == Cycle(YearOf(w[1]))
               IN <<n, w[1] - CycleStart(n) + 1, w[2], w[3], w[4]>>
GloOf(t, p) == GloOfUtc(UtcOf(t, p))
ValidDay(g) == g[1] \in 1..31 /\ g[2] \in 1..1461
\* the integer part of the offset only applies to GLONASS time (ICD 4.5)
Whole(k) == TS * ((2 * k + TS) \div (2 * TS))
GpsOfGlo(g, p) ==
  LET lp == g[5] >= 60 * TS
      x == AtDay(CycleStart(g[1]) + g[2] - 1, (g[3] * 60 + g[4]) * 60 * TS + g[5] - H3)
      off == OffsetUtc(Later(x, IF lp THEN -TS ELSE 0), p)
  IN Later(x, Whole(off))
===============================================================================
