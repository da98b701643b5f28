---------------------------------- MODULE AtmosMC --------------------------------
(* A receiver travels, its clock runs, its satellite moves over the sky: the delay  *)
(* models obey their symmetries and bounds everywhere.                              *)
EXTENDS Atmos
CONSTANTS LatN, Hours, ElN
VARIABLES la, lo, hour, el, set
vars == <<la, lo, hour, el, set>>
Lat == Over(Mult(Pi, la), 2 * LatN)
Lon == Over(Mult(Pi, lo), 2)
El == Over(Mult(Pi, el), 2 * ElN)
Tow == <<0, 1234, 5000, 0, 0>> \oplus Over(Mult(Day, 2 * hour), Hours)
\* broadcast parameter sets: none, flat, tilted, negative amplitude
As == << <<Zero, Zero, Zero, Zero>>, <<Num(20), Zero, Zero, Zero>>, <<<<11, 1759, 0, 0, 0>>, <<14, 9012, 0, 0, 0>>, Num(-60), Num(-119)>>, <<Num(-30), Zero, Zero, Zero>> >>
Bs == << <<Zero, Zero, Zero, Zero>>, <<Num(100), Zero, Zero, Zero>>, <<<<90, 1120, 0, 0, 0>>, Num(0), Num(-196), Num(-65)>>, <<Num(250), Zero, Zero, Zero>> >>
Init == la = 0 /\ lo = 0 /\ hour = 0 /\ el \in 0..ElN /\ set \in 1..4
Next == \/ la < LatN /\ la' = la + 1 /\ UNCHANGED <<lo, hour, el, set>>
        \/ la > -LatN /\ la' = la - 1 /\ UNCHANGED <<lo, hour, el, set>>
        \/ lo < 2 /\ lo' = lo + 1 /\ UNCHANGED <<la, hour, el, set>>
        \/ hour < Hours /\ hour' = hour + 1 /\ UNCHANGED <<la, lo, el, set>>
Spec == Init /\ [][Next]_vars
\* ---- ionosphere
Az == Over(Mult(Pi, hour + lo), 3)
V == Iono(Lat, Lon, Az, El, Tow, As[set], Bs[set])
Floor_ == (Slant(El \oslash Pi) \otimes Light) \otimes Night
NightFloor == V # {} /\ \A v \in V : ~Less(v, Floor_ \ominus E12(1))
Quiet == set \in {1, 4} => \A v \in V : Close(v, Floor_, E12(1))
SameIn(a, b) == \E u \in a, v \in b : Close(u, v, E8(1))
Daily == SameIn(V, Iono(Lat, Lon, Az, El, Tow \oplus Day, As[set], Bs[set]))
\* without a tilt only the local time counts
LocalTime == set \in {1, 2, 4} => SameIn(V, Iono(Lat, Lon \oplus Half(Pi), Az, El, Tow \ominus <<21, 6000, 0, 0, 0>>, As[set], Bs[set]))
Lower == el < ElN => Less(Slant(Over(Mult(Pi, el + 1), 2 * ElN) \oslash Pi), Slant(El \oslash Pi))
SlantRange == LET f == Slant(El \oslash Pi) IN ~Less(f, One \ominus E8(1)) /\ Less(f, <<3, 4000, 0, 0, 0>>)
PierceNear == LET p == Central(El \oslash Pi) IN ~Less(p, Neg(E4(6))) /\ Less(p, <<0, 1030, 0, 0, 0>>) /\ (el = ElN => Less(Mag(p), E4(6)))
\* ---- neutral atmosphere (one receiver per latitude, day and satellite)
Doy == Over(Mult(Num(1461), hour), 4 * Hours)
Hgt == Num(5 * lo)
D == Tropo(Doy, Lat, Hgt, El)
HalfYear == <<182, 6250, 0, 0, 0>>
Positive == ~IsNeg(D) /\ Less(D, Num(200)) /\ (el = ElN => Less(D, <<2, 8000, 0, 0, 0>>) /\ Less(<<0, 5000, 0, 0, 0>>, D))
South == Close(Tropo(Doy \oplus HalfYear, Neg(Lat), Hgt, El), D, E8(1)) \/ la = 0 \/ IsNeg(Lat)
Yearly_ == Close(Tropo(Doy \oplus Mult(HalfYear, 2), Lat, Hgt, El), D, E8(1))
Heights == /\ Tropo(Doy, Lat, <<11, 0, 0, 0, 1>>, El) = Zero
           /\ Tropo(Doy, Lat, Num(-1), El) = Tropo(Doy, Lat, Zero, El)
           /\ lo < 2 => Less(Tropo(Doy, Lat, Num(5 * lo + 5), El), D)
Longer == el < ElN => Less(Tropo(Doy, Lat, Hgt, Over(Mult(Pi, el + 1), 2 * ElN)), D)
Zenith == el = ElN => \A k \in 0..2 : LET s == Sin(El) IN Close(Mapping(s, HaAvg[1], HbAvg[1], HcAvg[1]), One, E12(1))
Below == Tropo(Doy, Lat, Hgt, Num(-1)) = Tropo(Doy, Lat, Hgt, MinElevation)
\* the tables are read without a jump
Smooth == \A i \in 1..5 : LET d == Num(15 * i) IN \A t \in {TAvg, PAvg, HaAvg, HcAmp, WcTab} :
  /\ Close(Table(d, t), t[i], E12(1)) /\ Close(Table(d \ominus E8(1), t), t[i], E4(1)) /\ Table(Neg(d), t) = Table(d, t)
===============================================================================
