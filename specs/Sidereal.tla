---------------------------------- MODULE Sidereal -------------------------------
(* Greenwich mean sidereal time (IAU 1982) from the calendar date and UT1, as an   *)
(* angle; and which week numbers belong to the cycle that starts at a reference.   *)
EXTENDS Fix, Calendar
\* seconds of the polynomial at 0h UT1, in days
C0 == Over(<<24110, 5484, 1000, 0, 0>>, 86400)
C1 == Over(<<8640184, 8128, 6600, 0, 0>>, 86400)
C2 == Over(<<0, 931, 400, 0, 0>>, 86400)
C3 == Over(<<0, 0, 620, 0, 0>>, 86400)
Pace == <<1, 27, 3790, 9350, 7950>>      \* sidereal days in a day
\* Julian centuries from noon of 1 January 2000 to the start of a day
Centuries(mjd) == Over(<<2 * mjd - 103089, 0, 0, 0, 0>>, 73050)
AtMidnight(mjd) == LET t == Centuries(mjd) IN C0 \oplus (t \otimes (C1 \oplus (t \otimes (C2 \ominus (t \otimes C3)))))
\* seconds s of a day, as a part of the day
DayPart(s) == Over(s, 86400)
Fraction(x) == <<0, x[2], x[3], x[4], x[5]>>
\* in turns, and as an angle
Turns(mjd, s) == Fraction(AtMidnight(mjd) \oplus (Pace \otimes DayPart(s)))
Angle(x) == Mult(Pi \otimes x, 2)
Gmst(mjd, s) == Angle(Turns(mjd, s))
\* equal up to a whole turn
Near(a, b, tol) == LET d == Mag(a \ominus b) IN AtMost(d, tol) \/ AtMost(Mag(d \ominus Mult(Pi, 2)), tol)
\* ---- the cycle of 1024 weeks from the reference on
InCycle(w, ref) == w >= ref /\ w - ref < 1024
===============================================================================
