-------------------------------- MODULE AtmosTrace -------------------------------
EXTENDS Atmos, Geoid, Tr
VARIABLE l
E == Trace[l]
IonoOk == Sane(E.d) /\ \E v \in Iono(E.lat, E.lon, E.az, E.el, E.tow, E.a, E.b) : Close(v, E.d, E8(1))
\* powers are taken in single precision: a millionth
TropoOk == Sane(E.d) /\ LET v == Tropo(E.doy, E.lat, E.h, E.el) IN Close(v, E.d, Over(v, 100000) \oplus E12(1))
\* positions are rounded to single precision: to the side of a cell border they may fall
Deg(x) == Mult(x, 180) \oslash Pi
Slip == <<0, 0, 4000, 0, 0>>
South(x) == IF Less(x, Num(-90)) THEN Num(-90) ELSE IF Less(Num(90), x) THEN Num(90) ELSE x
GeoidOk == /\ E.m = 2 /\ Sane(E.d)
           /\ IF E.out = 1 THEN E.d = Zero ELSE
              LET la == Deg(E.lat) lo == Deg(E.lon) IN
              \E s \in {South(la), South(la \ominus Slip), South(la \oplus Slip)} : Close(Height(s, lo), E.d, <<0, 30, 0, 0, 0>>)
Ok == /\ E.same = 1
      /\ CASE E.e = "iono" -> IonoOk [] E.e = "tropo" -> TropoOk [] E.e = "geoid" -> GeoidOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
