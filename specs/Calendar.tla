------------------------------- MODULE Calendar --------------------------------
(* The Gregorian calendar by day number (modified Julian day).                  *)
EXTENDS Integers, Sequences
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearLen(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthLen(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days of the year before month m
Before(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m]
                + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
\* MJD of January 1st: counted from 1 January 1601 (MJD -94187)
Jan1(y) == LET n == y - 1601 IN -94187 + 365 * n + (n \div 4) - (n \div 100) + (n \div 400)
DayNo(y, m, d) == Jan1(y) + Before(y, m) + d - 1
YearOf(mjd) == LET g == 1601 + (((mjd + 94187) * 400) \div 146097)
               IN CHOOSE y \in (g - 1)..(g + 1) : Jan1(y) <= mjd /\ mjd < Jan1(y + 1)
YearDay(mjd) == mjd - Jan1(YearOf(mjd)) + 1
MonthOf(y, yd) == CHOOSE m \in 1..12 : Before(y, m) < yd /\ yd <= Before(y, m) + MonthLen(y, m)
Civil(mjd) == LET y == YearOf(mjd) yd == mjd - Jan1(y) + 1 m == MonthOf(y, yd)
              IN <<y, m, yd - Before(y, m)>>
\* 1 = Monday .. 7 = Sunday; MJD 0 was a Wednesday
WeekDay(mjd) == ((mjd + 2) % 7) + 1
===============================================================================
