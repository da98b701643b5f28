----------------------------------- MODULE Coord ---------------------------------
(* Geodesy on the WGS84 ellipsoid.  Lengths in thousands of kilometres, angles in  *)
(* radians.  Only the forward conversion is written down; the inverse conversion   *)
(* is whatever the forward one takes back to where it started.                     *)
EXTENDS Fix
SemiMajor == <<6, 3781, 3700, 0, 0>>
Flat == One \oslash <<298, 2572, 2356, 3000, 0>>
Ecc2 == Flat \otimes (Num(2) \ominus Flat)
SemiMinor == SemiMajor \otimes (One \ominus Flat)
\* a place: sines and cosines of latitude and longitude
Place(lat, lon) == SinCosOf(lat) \o SinCosOf(lon)
Normal(p) == SemiMajor \oslash Sqrt(One \ominus (Ecc2 \otimes Sq(p[1])))
EcefAt(p, h) == LET n == Normal(p) q == (n \oplus h) \otimes p[2] IN
  <<q \otimes p[4], q \otimes p[3], (((One \ominus Ecc2) \otimes n) \oplus h) \otimes p[1]>>
Ecef(lat, lon, h) == EcefAt(Place(lat, lon), h)
\* the rows of the local frame: north, east, down
NedAt(p) == << <<Neg(p[1] \otimes p[4]), Neg(p[1] \otimes p[3]), p[2]>>,
               <<Neg(p[3]), p[4], Zero>>,
               <<Neg(p[2] \otimes p[4]), Neg(p[2] \otimes p[3]), Neg(p[1])>> >>
LatOk(lat) == AtMost(Mag(lat), Half(Pi) \oplus E16(3))
LonOk(lon) == AtMost(Mag(lon), Pi \oplus E16(3))
\* direction seen at azimuth a and elevation e, in north-east-down
Look(a, e) == LET s == SinCosOf(a) t == SinCosOf(e) IN <<t[2] \otimes s[2], t[2] \otimes s[1], Neg(t[1])>>
===============================================================================
