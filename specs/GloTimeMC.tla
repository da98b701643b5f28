------------------------------- MODULE GloTimeMC -------------------------------
(* The Moscow clock through the ends of years, cycles and inserted seconds.      *)
EXTENDS GloTime
VARIABLES t, n
TableP == [use |-> 0, a0 |-> 0, lse |-> <<0, 0>>, ls |-> 0, lsf |-> 0]
WIN == 40
\* Moscow midnights that start these years
Years == {1997, 1999, 2000, 2001, 2004, 2008, 2013, 2096, 2097, 2100, 2101, 2104, 2118}
Init == /\ n = 0
        /\ t \in {Later(Starts[i], -WIN) : i \in 12..Len(LeapDays)}
                 \cup {Later(AtDay(Jan1(y), 0), 18 * TS - H3 - WIN) : y \in Years}
Next == n < 2 * WIN /\ n' = n + 1 /\ t' = Later(t, 1)
RoundTrip == GpsOfGlo(GloOf(t, TableP), TableP) = t
InRangeDay == ValidDay(GloOf(t, TableP))
\* the next tick is the next tick of the minute, or starts a minute
Ticking == LET g == GloOf(t, TableP) h == GloOf(Later(t, 1), TableP)
           IN \/ h = [g EXCEPT ![5] = @ + 1]
              \/ /\ h[5] = 0
                 /\ g[5] + 1 = (IF InLeap(t, TableP) THEN 61 ELSE 60) * TS
                 /\ \/ h[4] = g[4] + 1 /\ h[3] = g[3]
                    \/ h[4] = 0 /\ g[4] = 59 /\ h[3] = g[3] + 1 /\ h[2] = g[2]
                    \/ h[4] = 0 /\ g[4] = 59 /\ h[3] = 0 /\ g[3] = 23
                       /\ \/ h[2] = g[2] + 1 /\ h[1] = g[1]
                          \/ h[2] = 1 /\ h[1] = g[1] + 1 /\ g[2] \in {1460, 1461}
LeapAtThree == LET g == GloOf(t, TableP)
               IN g[5] >= 60 * TS => g[3] = 2 /\ g[4] = 59
===============================================================================
