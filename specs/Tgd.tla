---------------------------------- MODULE Tgd ---------------------------------
(* Group delay of every signal as a rational multiple of the broadcast delays,  *)
(* and the broadcast satellite clock.                                           *)
EXTENDS Signals
\* carrier frequencies as multiples of 5.115 MHz: E1/L1 is 308 of them
Fifth(hz) == hz \div 5115000
IsFifth(hz) == hz % 5115000 = 0
L1 == 308
GpsL5 == {9, 10, 11}
QzsL5 == {38, 39, 40}
GalE5a == {26, 27, 28}
BdsB1 == {12, 44}
BdsB3 == {53, 54, 55}
GloL1 == {3, 29}
GloL2 == {4, 30}
\* which broadcast delay: 0, 1 (pair of delays) or 2 (GLONASS), with a factor
\* numerator / denominator; <<>> when the ephemeris has none for the signal
Scaled(i, c) == LET f == Fifth(Code(c).hz) IN <<i, L1 * L1, f * f>>
Term(c) ==
  CASE Code(c).c = "GPS" -> Scaled(IF c \in GpsL5 THEN 1 ELSE 0, c)
    [] Code(c).c = "QZS" -> Scaled(IF c \in QzsL5 THEN 1 ELSE 0, c)
    [] Code(c).c = "GAL" -> Scaled(IF c \in GalE5a THEN 0 ELSE 1, c)
    [] Code(c).c = "BDS" -> IF c \in BdsB1 THEN <<0, 1, 1>> ELSE IF c \in BdsB3 THEN <<0, 0, 1>> ELSE <<1, 1, 1>>
    [] Code(c).c = "GLO" -> IF c \in GloL1 THEN <<2, 0, 1>> ELSE <<2, 1, 1>>
    [] OTHER -> <<>>
\* d: the broadcast delays <<first, second, GLONASS>>; r is the delay of code c to
\* within half a unit (plus rounding)
IsDelay(c, d, r) == LET t == Term(c) IN
  /\ t # <<>>
  /\ LET e == 2 * (r * t[3] - d[t[1] + 1] * t[2]) IN e <= t[3] + 2 /\ -e <= t[3] + 2
\* ---- clocks: coefficients a = <<offset, drift, rate of drift>>, dt seconds after
\* their reference time
Clock(a, dt) == a[1] + dt * (a[2] + dt * a[3])
ClockRate(a, dt) == a[2] + 2 * dt * a[3]
\* the clock error of a signal is the broadcast clock less its group delay
IsClock(c, a, d, dt, r) == IF Term(c) = <<>> THEN r = Clock(a, dt) ELSE IsDelay(c, d, Clock(a, dt) - r)
\* ---- SBAS satellites: uniformly accelerated motion since the reference time, at
\* the time the satellite's own clock error is taken off (positions in half metres)
SbasLag(dt, c0, c1) == c0 + (c1 * dt) \div 4
SbasPos(p, v, a, s) == 2 * p + 2 * v * s + a * s * s
SbasVel(v, a, s) == v + a * s
===============================================================================
