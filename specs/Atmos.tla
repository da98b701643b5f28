----------------------------------- MODULE Atmos ---------------------------------
(* Signal delay in the atmosphere: Klobuchar's ionosphere (IS-GPS-200, 20.3.3.5.2.5) *)
(* and the UNB3m neutral atmosphere with Niell's mapping functions.                  *)
EXTENDS Fix
\* ================= ionosphere: nanoseconds, thousands of seconds, half turns
Light == <<0, 2997, 9245, 8000, 0>>           \* metres in a nanosecond
Clamp(x, lo, hi) == IF Less(x, lo) THEN lo ELSE IF Less(hi, x) THEN hi ELSE x
Day == <<86, 4000, 0, 0, 0>>
\* t modulo a day, for |t| up to some weeks
Days(t) == (t[1] * 10 + t[2] \div 1000) \div 864
InDay(t) == LET r == t \ominus Mult(Day, Days(t)) IN IF ~Less(r, Day) THEN r \ominus Day ELSE r
\* the cubic c[1] + m (c[2] + m (c[3] + m c[4]))
Cubic(c, m) == c[1] \oplus (m \otimes (c[2] \oplus (m \otimes (c[3] \oplus (m \otimes c[4])))))
Quarter16 == <<0, 4160, 0, 0, 0>>
\* pierce point: central angle, latitude, longitude, geomagnetic latitude
Central(el) == (<<0, 137, 0, 0, 0>> \oslash (el \oplus <<0, 1100, 0, 0, 0>>)) \ominus <<0, 220, 0, 0, 0>>
PierceLat(lat, psi, az) == Clamp(lat \oplus (psi \otimes Cos(az)), Neg(Quarter16), Quarter16)
PierceLon(lon, psi, az, plat) == lon \oplus ((psi \otimes Sin(az)) \oslash Cos(plat \otimes Pi))
Magnetic(plat, plon) == plat \oplus (<<0, 640, 0, 0, 0>> \otimes Cos((plon \ominus <<1, 6170, 0, 0, 0>>) \otimes Pi))
Slant(el) == LET d == <<0, 5300, 0, 0, 0>> \ominus el IN One \oplus Mult(Sq(d) \otimes d, 16)
Night == Num(5)
\* delay in nanoseconds at local time t; the day curve and the night value
Phase(t, per) == (Mult(Pi, 2) \otimes (t \ominus <<50, 4000, 0, 0, 0>>)) \oslash per
DayDelay(x, amp) == LET q == Sq(x) IN Night \oplus (amp \otimes ((One \ominus Half(q)) \oplus Over(Sq(q), 24)))
Edge == <<1, 5700, 0, 0, 0>>
Iono(lat, lon, az, el, tow, a, b) ==
  LET la == lat \oslash Pi
      lo == lon \oslash Pi
      e == el \oslash Pi
      psi == Central(e)
      pl == PierceLat(la, psi, az)
      pn == PierceLon(lo, psi, az, pl)
      m == Magnetic(pl, pn)
      t == InDay((<<43, 2000, 0, 0, 0>> \otimes pn) \oplus tow)
      c == Cubic(a, m)
      amp == IF IsNeg(c) THEN Zero ELSE c
      p == Cubic(b, m)
      per == IF Less(p, Num(72)) THEN Num(72) ELSE p
      f == Slant(e) \otimes Light
      \* midnight and the edge of the day curve: either side, within rounding
      ts == {t} \cup (IF Less(t, E8(1)) THEN {Day} ELSE {}) \cup (IF Less(Day \ominus t, E8(1)) THEN {Zero} ELSE {})
      vals(u) == LET x == Mag(Phase(u, per)) IN
        (IF AtMost(x, Edge \oplus E8(1)) THEN {DayDelay(x, amp)} ELSE {}) \cup (IF AtMost(Edge \ominus E8(1), x) THEN {Night} ELSE {})
  IN {f \otimes v : v \in UNION {vals(u) : u \in ts}}
\* ================= neutral atmosphere: kilometres, kelvin, millibar
PAvg == << <<1013, 2500, 0, 0, 0>>, <<1017, 2500, 0, 0, 0>>, <<1015, 7500, 0, 0, 0>>, <<1011, 7500, 0, 0, 0>>, Num(1013) >>
TAvg == << <<299, 6500, 0, 0, 0>>, <<294, 1500, 0, 0, 0>>, <<283, 1500, 0, 0, 0>>, <<272, 1500, 0, 0, 0>>, <<263, 6500, 0, 0, 0>> >>
BAvg == << <<6, 3000, 0, 0, 0>>, <<6, 500, 0, 0, 0>>, <<5, 5800, 0, 0, 0>>, <<5, 3900, 0, 0, 0>>, <<4, 5300, 0, 0, 0>> >>
LAvg == << <<2, 7700, 0, 0, 0>>, <<3, 1500, 0, 0, 0>>, <<2, 5700, 0, 0, 0>>, <<1, 8100, 0, 0, 0>>, <<1, 5500, 0, 0, 0>> >>
RAvg == << Num(75), Num(80), Num(76), <<77, 5000, 0, 0, 0>>, <<82, 5000, 0, 0, 0>> >>
PAmp == << Zero, Neg(<<3, 7500, 0, 0, 0>>), Neg(<<2, 2500, 0, 0, 0>>), Neg(<<1, 7500, 0, 0, 0>>), Neg(<<0, 5000, 0, 0, 0>>) >>
TAmp == << Zero, Num(7), Num(11), Num(15), <<14, 5000, 0, 0, 0>> >>
BAmp == << Zero, <<0, 2500, 0, 0, 0>>, <<0, 3200, 0, 0, 0>>, <<0, 8100, 0, 0, 0>>, <<0, 6200, 0, 0, 0>> >>
LAmp == << Zero, <<0, 3300, 0, 0, 0>>, <<0, 4600, 0, 0, 0>>, <<0, 7400, 0, 0, 0>>, <<0, 3000, 0, 0, 0>> >>
RAmp == << Zero, Zero, Num(-1), Neg(<<2, 5000, 0, 0, 0>>), <<2, 5000, 0, 0, 0>> >>
HaAvg == << <<0, 12, 7699, 3400, 0>>, <<0, 12, 6832, 3000, 0>>, <<0, 12, 4653, 9700, 0>>, <<0, 12, 1960, 4900, 0>>, <<0, 12, 459, 9600, 0>> >>
HbAvg == << <<0, 29, 1536, 9500, 0>>, <<0, 29, 1522, 9900, 0>>, <<0, 29, 2884, 4500, 0>>, <<0, 29, 225, 6500, 0>>, <<0, 29, 249, 1200, 0>> >>
HcAvg == << <<0, 626, 1050, 5000, 0>>, <<0, 628, 3739, 3000, 0>>, <<0, 637, 2177, 4000, 0>>, <<0, 638, 2426, 5000, 0>>, <<0, 642, 5845, 5000, 0>> >>
HaAmp == << Zero, <<0, 0, 1270, 9626, 0>>, <<0, 0, 2652, 3662, 0>>, <<0, 0, 3400, 452, 0>>, <<0, 0, 4120, 2191, 0>> >>
HbAmp == << Zero, <<0, 0, 2141, 4979, 0>>, <<0, 0, 3016, 779, 0>>, <<0, 0, 7256, 2722, 0>>, <<0, 1, 1723, 3750, 0>> >>
HcAmp == << Zero, <<0, 0, 9012, 8400, 0>>, <<0, 0, 4349, 7037, 0>>, <<0, 8, 4795, 3480, 0>>, <<0, 17, 372, 600, 0>> >>
WaTab == << <<0, 5, 8021, 8970, 0>>, <<0, 5, 6794, 8470, 0>>, <<0, 5, 8118, 190, 0>>, <<0, 5, 9727, 5420, 0>>, <<0, 6, 1641, 6930, 0>> >>
WbTab == << <<0, 14, 2752, 6800, 0>>, <<0, 15, 1386, 2500, 0>>, <<0, 14, 5727, 5200, 0>>, <<0, 15, 74, 2800, 0>>, <<0, 17, 5990, 8200, 0>> >>
WcTab == << <<0, 434, 7296, 1000, 0>>, <<0, 467, 2951, 0, 0>>, <<0, 439, 893, 1000, 0>>, <<0, 446, 2698, 2000, 0>>, <<0, 547, 3603, 8000, 0>> >>
\* by latitude in degrees: constant to 15 and from 75, linear between multiples of 15
Table(d, tab) == LET m == Mag(d) IN
  IF m[1] < 15 THEN tab[1] ELSE IF m[1] >= 75 THEN tab[5] ELSE
  LET i == m[1] \div 15 IN tab[i] \oplus Over((tab[i + 1] \ominus tab[i]) \otimes (m \ominus Num(15 * i)), 15)
\* the yearly cosine peaks on day 28 in the north and half a year later in the south
Season(d, doy) == Cos((((IF IsNeg(d) THEN doy \oplus <<182, 6250, 0, 0, 0>> ELSE doy) \ominus Num(28)) \otimes Mult(Pi, 2)) \oslash <<365, 2500, 0, 0, 0>>)
Yearly(d, s, avg, amp) == Table(d, avg) \ominus (Table(d, amp) \otimes s)
Fraction(s, a, b, c) == s \oplus Ratio(a, s \oplus Ratio(b, s \oplus c))
Mapping(s, a, b, c) == Ratio(Fraction(One, a, b, c), Fraction(s, a, b, c))
MinElevation == Over(Pi, 1800)
Top == Num(11)
Geodetic2 == <<0, 66, 9437, 9990, 1413>>      \* squared eccentricity
\* delay in metres; doy, radians, kilometres, radians
Tropo(doy, lat, h0, el0) ==
  IF Less(Top, h0) THEN Zero ELSE
  LET h == IF IsNeg(h0) THEN Zero ELSE h0
      el == IF Less(el0, MinElevation) THEN MinElevation ELSE el0
      d == (Mult(lat, 180)) \oslash Pi
      s == Season(d, doy)
      p0 == Yearly(d, s, PAvg, PAmp)
      t0 == Yearly(d, s, TAvg, TAmp)
      b == Yearly(d, s, BAvg, BAmp)
      dl == Yearly(d, s, LAvg, LAmp) \oplus One
      rh == Yearly(d, s, RAvg, RAmp)
      t2 == Over(t0, 100)
      ex == (((<<0, 1237, 8847, 0, 0>> \otimes Sq(t2)) \ominus (<<0, 191, 2131, 6000, 0>> \otimes t0)) \oplus <<33, 9371, 1047, 0, 0>>) \ominus (<<6343, 1645, 0, 0, 0>> \oslash t0)
      fw == (<<1, 6, 2000, 0, 0>> \oplus (<<0, 0, 314, 0, 0>> \otimes p0)) \oplus (<<0, 0, 56, 0, 0>> \otimes Sq(t0 \ominus <<273, 1500, 0, 0, 0>>))
      e0 == Over(rh \otimes (Over(Exp(ex), 100) \otimes fw), 100)
      rd == <<8314, 3400, 0, 0, 0>> \oslash <<28, 9644, 0, 0, 0>>
      k2 == <<64, 7900, 0, 0, 0>> \ominus ((<<77, 6040, 0, 0, 0>> \otimes <<18, 152, 0, 0, 0>>) \oslash <<28, 9644, 0, 0, 0>>)
      ep == (<<9806, 6500, 0, 0, 0>> \oslash <<287, 540, 0, 0, 0>>) \oslash b
      t == t0 \ominus (b \otimes h)
      q == t \oslash t0
      p == p0 \otimes Power(q, ep)
      e == e0 \otimes Power(q, ep \otimes dl)
      sc == SinCosOf(lat)
      u == Sq(sc[2])
      v == Sq((One \ominus Geodetic2) \otimes sc[1])
      g == (One \ominus (<<0, 26, 6000, 0, 0>> \otimes ((u \ominus v) \oslash (u \oplus v)))) \ominus (<<0, 2, 8000, 0, 0>> \otimes h)
      den == (<<9, 7840, 0, 0, 0>> \otimes g) \otimes dl
      tm == t \otimes (One \ominus (Over(b \otimes rd, 1000) \oslash den))
      zh == (<<0, 22, 7680, 0, 0>> \oslash g) \otimes p
      zw == (E8(100) \otimes (k2 \oplus (Num(3776) \oslash Over(tm, 100)))) \otimes ((rd \otimes e) \oslash den)
      se == Sin(el)
      mh == Mapping(se, Yearly(d, s, HaAvg, HaAmp), Yearly(d, s, HbAvg, HbAmp), Yearly(d, s, HcAvg, HcAmp))
      hc == (Ratio(One, se) \ominus Mapping(se, <<0, 0, 2530, 0, 0>>, <<0, 54, 9000, 0, 0>>, <<0, 11, 4000, 0, 0>>)) \otimes h
      mw == Mapping(se, Table(d, WaTab), Table(d, WbTab), Table(d, WcTab))
  IN ((mh \oplus hc) \otimes zh) \oplus (mw \otimes zw)
===============================================================================
