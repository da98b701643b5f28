---------------------------------- MODULE CoordMC --------------------------------
(* A traveller moves over the globe and up and down; wherever it stands, the       *)
(* conversion and the local frame obey the laws of the ellipsoid.                  *)
EXTENDS Coord
CONSTANTS LatSteps, LonSteps
VARIABLES la, lo, hi
vars == <<la, lo, hi>>
Lat == Over(Mult(Pi, la), 2 * LatSteps)
Lon == Over(Mult(Pi, lo), LonSteps)
Hs == <<Num(-6), <<-1, 9900, 0, 0, 0>>, Zero, <<0, 88, 0, 0, 0>>, <<35, 7864, 0, 0, 0>>, Num(90)>>
H == Hs[hi]
Init == la = 0 /\ lo = 0 /\ hi = 1
North == la < LatSteps /\ la' = la + 1 /\ UNCHANGED <<lo, hi>>
South == la > -LatSteps /\ la' = la - 1 /\ UNCHANGED <<lo, hi>>
East == lo' = (IF lo = LonSteps THEN 1 - LonSteps ELSE lo + 1) /\ UNCHANGED <<la, hi>>
Rise == hi < Len(Hs) /\ hi' = hi + 1 /\ UNCHANGED <<la, lo>>
Next == North \/ South \/ East \/ Rise
Spec == Init /\ [][Next]_vars
\* ---- laws
P == Place(Lat, Lon)
X == EcefAt(P, H)
M == NedAt(P)
Tiny == E16(400)
Ellipsoid == LET s == EcefAt(P, Zero) IN
  Close((Sq(s[1] \oslash SemiMajor) \oplus Sq(s[2] \oslash SemiMajor)) \oplus Sq(s[3] \oslash SemiMinor), One, E16(60))
Axes == /\ la = 0 => Close(X[3], Zero, Tiny) /\ Close(Vnorm(X), Mag(SemiMajor \oplus H), Tiny)
        /\ Mag(Num(la))[1] = LatSteps => Close(Mag(X[3]), Mag(SemiMinor \oplus H), Tiny) /\ Close(X[1], Zero, Tiny) /\ Close(X[2], Zero, Tiny)
        /\ lo = 0 => Close(X[2], Zero, Tiny)
        /\ lo = LonSteps => Close(X[2], Zero, Tiny)
Mirror == LET q == Ecef(Neg(Lat), Lon, H) IN Vclose(<<q[1], q[2], Neg(q[3])>>, X, Tiny)
Turn == LET q == Ecef(Lat, Lon \oplus Half(Pi), H) IN Vclose(<<q[2], Neg(q[1]), q[3]>>, X, Tiny)
\* rising moves against down
Plumb == Vclose(Vsub(X, EcefAt(P, Zero)), Vscale(M[3], Neg(H)), Tiny)
Cross(a, b) == <<(a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])>>
Frame == /\ \A i, j \in 1..3 : Close(Vdot(M[i], M[j]), IF i = j THEN One ELSE Zero, E16(20))
         /\ Vclose(Cross(M[1], M[2]), M[3], E16(20))
\* going north (east) moves along north (east) and stays on the surface
D == E4(1)
Tangent == LET n == Vsub(Ecef(Lat \oplus D, Lon, Zero), Ecef(Lat \ominus D, Lon, Zero))
               e == Vsub(Ecef(Lat, Lon \oplus D, Zero), Ecef(Lat, Lon \ominus D, Zero))
           IN /\ Close(Vdot(n, M[2]), Zero, E12(1)) /\ Close(Vdot(n, M[3]), Zero, E8(1)) /\ ~IsNeg(Vdot(n, M[1]))
              /\ Close(Vdot(e, M[1]), Zero, E8(1)) /\ Close(Vdot(e, M[3]), Zero, E8(1)) /\ (Mag(Num(la))[1] < LatSteps => ~IsNeg(Vdot(e, M[2])))
Sky == \A a \in 0..7 : \A e \in -2..2 : LET v == Look(Over(Mult(Pi, a), 4), Over(Mult(Pi, e), 4)) IN
  /\ Close(Vdot(v, v), One, E16(20)) /\ (e = 2 => Vclose(v, <<Zero, Zero, Num(-1)>>, E16(20)))
  /\ (e = 0 /\ a = 0 => Vclose(v, <<One, Zero, Zero>>, E16(20))) /\ (e = 0 /\ a = 2 => Vclose(v, <<Zero, One, Zero>>, E16(20)))
===============================================================================
