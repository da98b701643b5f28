----------------------------------- MODULE Utc ---------------------------------
(* UTC against GPS time.  An instant is <<week, ticks>> of GPS time; a UTC       *)
(* instant is <<day number, ticks of the day>>, whose last second may be the     *)
(* 61st of its minute.  TS ticks to the second.                                 *)
EXTENDS Time, Calendar, FiniteSets
CONSTANT TS
DT == 86400 * TS
Day0 == 44244                                \* 6 January 1980
\* the last days of the months at whose end a second was inserted (IERS Bulletin C)
LeapDays == << <<1981, 6, 30>>, <<1982, 6, 30>>, <<1983, 6, 30>>, <<1985, 6, 30>>,
   <<1987, 12, 31>>, <<1989, 12, 31>>, <<1990, 12, 31>>, <<1992, 6, 30>>, <<1993, 6, 30>>,
   <<1994, 6, 30>>, <<1995, 12, 31>>, <<1997, 6, 30>>, <<1998, 12, 31>>, <<2005, 12, 31>>,
   <<2008, 12, 31>>, <<2012, 6, 30>>, <<2015, 6, 30>>, <<2016, 12, 31>> >>
AtDay(d, k) == Norm((d - Day0) \div 7, ((d - Day0) % 7) * DT + k)
\* midnight ending the n-th leap day, as if no second had ever been inserted
Midnight(n) == LET x == LeapDays[n] IN AtDay(DayNo(x[1], x[2], x[3]) + 1, 0)
Midnights == [n \in 1..Len(LeapDays) |-> Midnight(n)]
Leq(a, b) == \/ a[1] < b[1]
             \/ /\ a[1] = b[1]
                /\ a[2] <= b[2]
\* Parameters: [use, a0, lse, ls, lsf], use = 0: the built-in history.
\* GPS instant at which inserted second n starts
LseStart(n) == Norm(Midnights[n][1], Midnights[n][2] + (n - 1) * TS)
Starts == [n \in 1..Len(LeapDays) |-> LseStart(n)]
Later(t, k) == Norm(t[1], t[2] + k)
\* GPS minus UTC in ticks: it changes when the inserted second ends
Offset(t, p) ==
  IF p.use = 1 THEN p.a0 + TS * (IF Leq(Later(p.lse, TS), t) THEN p.lsf ELSE p.ls)
  ELSE TS * Cardinality({n \in 1..Len(LeapDays) : Leq(Later(Starts[n], TS), t)})
InLeap(t, p) ==
  IF p.use = 1 THEN p.lsf > p.ls /\ Leq(p.lse, t) /\ ~Leq(Later(p.lse, TS), t)
  ELSE \E n \in 1..Len(LeapDays) : Leq(Starts[n], t) /\ ~Leq(Later(Starts[n], TS), t)
\* <<day, ticks of day>>: ticks beyond 86400 s are the inserted second
UtcOf(t, p) ==
  LET il == InLeap(t, p)
      x == Norm(t[1], t[2] - Offset(t, p) - (IF il THEN TS ELSE 0))
      d == Day0 + 7 * x[1] + (x[2] \div DT)
  IN <<d, (x[2] % DT) + (IF il THEN TS ELSE 0)>>
\* offset to add to a UTC instant counted without leap seconds
OffsetUtc(x, p) ==
  IF p.use = 1 THEN LET old == p.a0 + TS * p.ls
                    IN IF Leq(p.lse, Later(x, old)) THEN p.a0 + TS * p.lsf ELSE old
  ELSE TS * Cardinality({n \in 1..Len(LeapDays) : Leq(Midnights[n], x)})
GpsOf(u, p) ==
  LET x == AtDay(u[1], u[2])
  IN Later(x, OffsetUtc(x, p) - (IF u[2] >= DT THEN TS ELSE 0))
\* the broken-down forms
Clock(k) == LET s == k \div TS
            IN IF k >= DT THEN <<23, 59, 60 + (s - 86400), k % TS>>
               ELSE <<s \div 3600, (s % 3600) \div 60, s % 60, k % TS>>
Fields(u) == LET c == Civil(u[1]) h == Clock(u[2])
             IN <<c[1], YearDay(u[1]), c[2], c[3], WeekDay(u[1]), h[1], h[2], h[3], h[4]>>
\* <<day, ticks>> of a broken-down time, where rounding may have carried
TicksOf(h, m, s, f) == ((h * 60 + m) * 60 + s) * TS + f
Carry(d, k) == <<d + (k \div DT), k % DT>>
===============================================================================
