--------------------------------- MODULE SiderealMC ------------------------------
(* The sky turns: day after day, hour after hour. *)
EXTENDS Sidereal
CONSTANTS Days, Every
VARIABLES mjd, h
vars == <<mjd, h>>
Init == mjd \in {44244, 51544, 60000, 88000} /\ h = 0
Next == \/ h < 23 /\ h' = h + 1 /\ mjd' = mjd
        \/ h = 23 /\ mjd + Every <= 44244 + Days /\ h' = 0 /\ mjd' = mjd + Every
Spec == Init /\ [][Next]_vars
Secs(k) == Num(3600 * k)
G == Gmst(mjd, Secs(h))
Hms(a, b, s) == Angle(DayPart(Num(3600 * a + 60 * b) \oplus s))
InTurn == ~IsNeg(G) /\ Less(G, Mult(Pi, 2))
\* known instants: the epoch 2000, and two of Meeus, Astronomical Algorithms, chapter 12
Known == /\ Near(Gmst(51544, Secs(12)), Hms(18, 41, <<50, 5484, 1000, 0, 0>>), E12(10000))
         /\ Near(Gmst(DayNo(1987, 4, 10), Zero), Hms(13, 10, <<46, 3668, 0, 0, 0>>), E8(1))
         /\ Near(Gmst(DayNo(1987, 4, 10), Num(3600 * 19 + 21 * 60)), Hms(8, 34, <<57, 896, 0, 0, 0>>), E8(1))
\* a sidereal day later the sky is back; midnight joins up with the day before
Returns == Near(Gmst(mjd, Secs(h) \oplus (Num(86400) \oslash Pace)), G, E12(100))
Joins == Near(Gmst(mjd, Num(86400)), Gmst(mjd + 1, Zero), E8(1)) /\ ~Near(Gmst(mjd, Zero), Gmst(mjd + 1, Zero), E4(100))
Onward == Near(Gmst(mjd, Secs(h + 1)), G \oplus Mult(Pi \otimes DayPart(Num(3600) \otimes Pace), 2), E12(100))
\* one week of every residue in a cycle
Cycle == \A r \in {0, 1, 1023, 1024, 2190, 3000} : \A d \in {0, 1, 511, 1022, 1023} :
           InCycle(r + d, r) /\ ~InCycle(r + d + 1024, r) /\ ~InCycle(r + d - 1024, r)
===============================================================================
