------------------------------- MODULE LeapEdgeMC ------------------------------
(* The fine clock runs through the end of every kind of day; it agrees with the *)
(* clock of Utc and GloTime, and a disturbance by one tick is a disturbance of   *)
(* one tick of what is meant by the reading, never of a second.                 *)
EXTENDS LeapEdge
VARIABLES x, d, leap, ls, a0
P == [use |-> 1, a0 |-> a0, lse |-> Later(AtDay(d + 1, 0), ls * TS + a0), ls |-> ls, lsf |-> ls + leap]
\* ends of weeks, months, years, cycles and ordinary days
Init == /\ x = <<-3, 0>> /\ d \in {58848, 60310, 60314, 58893, 58906, 50082, 51543, 88068}
        /\ leap \in {0, 1} /\ ls \in {0, 18, 37} /\ a0 \in {-1, 0, 1}
Next == x[1] < 5 /\ x' = FPlus(x, <<0, 1>>) /\ UNCHANGED <<d, leap, ls, a0>>
U == UtcShown(x, d, leap)
G == GloShown(x, d, leap)
GpsT == Later(AtDay(d + 1, 0), (ls + x[1]) * TS + x[2] + a0)
Meaning == /\ Proper(U, d, leap) /\ UtcMeant(U, d, leap) = x
           /\ Proper(G, d, leap) /\ GloMeant(G, d, leap) = x
SameClock == LET u == UtcOf(GpsT, P) c == Clock(u[2])
             IN U = <<u[1], c[1], c[2], c[3], c[4]>>
SameMoscow == LET g == GloOf(GpsT, P)
              IN <<CycleStart(g[1]) + g[2] - 1, g[3], g[4], g[5] \div TS, g[5] % TS>> = G
SameBack == GpsOf(UtcOf(GpsT, P), P) = GpsT
Stable == LET y == FPlus(x, <<0, 1>>)
          IN FNear(UtcMeant(UtcShown(y, d, leap), d, leap), UtcMeant(U, d, leap), 1)
===============================================================================
