----------------------------------- MODULE Orbit ---------------------------------
(* Where a satellite is: the broadcast orbit models of GPS/QZSS, Galileo, BeiDou     *)
(* (Keplerian with harmonic corrections), GLONASS (equations of motion) and SBAS     *)
(* (polynomial).  Thousands of kilometres and thousands of seconds; speeds are then  *)
(* in km/s and accelerations in m/s^2.  Clock offsets in microseconds.               *)
EXTENDS Coord
\* gravitation and rotation of the Earth, by system
Mu(c) == IF c \in {"gps", "qzs"} THEN <<398, 6005, 0, 0, 0>> ELSE <<398, 6004, 4180, 0, 0>>
Spin(c) == IF c = "bds" \/ c = "glo" THEN <<0, 729, 2115, 0, 0>> ELSE <<0, 729, 2115, 1467, 0>>
\* ================= Keplerian: a record k of broadcast numbers
\* sa: root of the axis in thousands of metres^(1/2); ecc m0 w om0 in: radians;
\* dn omd ind: radians in a thousand seconds; cus cuc cis cic: radians; crs crc: thousands
\* of kilometres; af0 af1 af2 tgd: microseconds, per thousand seconds (squared)
Axis(k) == Sq(k.sa)
Motion(c, k) == (Sqrt(Mu(c) \oslash Axis(k)) \oslash Axis(k)) \oplus k.dn
RECURSIVE Solve(_, _, _, _)
Solve(m, e, ea, n) == LET s == SinCosOf(ea)
                          z == ea \ominus (((ea \ominus (e \otimes s[1])) \ominus m) \oslash (One \ominus (e \otimes s[2])))
                      IN IF n = 0 \/ Close(z, ea, E16(3)) THEN z ELSE Solve(m, e, z, n - 1)
Eccentric(m, e) == Solve(m, e, m \oplus (e \otimes Sin(m)), 12)
Twice(s) == <<Mult(s[1] \otimes s[2], 2), Sq(s[2]) \ominus Sq(s[1])>>
AddAngle(s, t) == <<(s[1] \otimes t[2]) \oplus (s[2] \otimes t[1]), (s[2] \otimes t[2]) \ominus (s[1] \otimes t[1])>>
\* in the plane: radius, sine and cosine of the argument of latitude, inclination
Plane(c, k, dt) ==
  LET ea == Eccentric(k.m0 \oplus (Motion(c, k) \otimes dt), k.ecc)
      s == SinCosOf(ea)
      rho == One \ominus (k.ecc \otimes s[2])
      nu == <<(Sqrt(One \ominus Sq(k.ecc)) \otimes s[1]) \oslash rho, (s[2] \ominus k.ecc) \oslash rho>>
      phi == AddAngle(nu, SinCosOf(k.w))
      d == Twice(phi)
      h(cs, cc) == (cs \otimes d[1]) \oplus (cc \otimes d[2])
  IN [r |-> (Axis(k) \otimes rho) \oplus h(k.crs, k.crc), u |-> AddAngle(phi, SinCosOf(h(k.cus, k.cuc))),
      i |-> (k.in \oplus (k.ind \otimes dt)) \oplus h(k.cis, k.cic)]
Place3(p, om) ==
  LET x == p.r \otimes p.u[2]
      y == p.r \otimes p.u[1]
      i == SinCosOf(p.i)
      o == SinCosOf(om)
  IN <<(x \otimes o[2]) \ominus ((y \otimes i[2]) \otimes o[1]), (x \otimes o[1]) \oplus ((y \otimes i[2]) \otimes o[2]), y \otimes i[1]>>
\* BeiDou counts its week fourteen seconds later
TheWeek == <<604, 8000, 0, 0, 0>>
Epoch(c, toe) == IF c # "bds" THEN toe ELSE LET u == toe \ominus <<0, 140, 0, 0, 0>> IN IF IsNeg(u) THEN u \oplus TheWeek ELSE u
\* five degrees, for the geostationary satellites of BeiDou
Five == SinCosOf(Over(Pi, 36))
TiltBack(v) == <<v[1], (v[2] \otimes Five[2]) \ominus (v[3] \otimes Five[1]), (v[2] \otimes Five[1]) \oplus (v[3] \otimes Five[2])>>
TurnTo(v, a) == LET s == SinCosOf(a) IN <<(v[1] \otimes s[2]) \oplus (v[2] \otimes s[1]), (v[2] \otimes s[2]) \ominus (v[1] \otimes s[1]), v[3]>>
Geo(c, geo) == c = "bds" /\ geo
KeplerPos(c, geo, k, toe, dt) ==
  LET p == Plane(c, k, dt) w == Spin(c) o0 == k.om0 \ominus (w \otimes Epoch(c, toe)) IN
  IF Geo(c, geo) THEN TurnTo(TiltBack(Place3(p, o0 \oplus (k.omd \otimes dt))), w \otimes dt)
  ELSE Place3(p, o0 \oplus ((k.omd \ominus w) \otimes dt))
\* clock polynomial, the time it leaves, and the relativistic term -2 r r'/c^2
Poly(k, dt) == k.af0 \oplus (dt \otimes (k.af1 \oplus (dt \otimes k.af2)))
Rate(k, dt) == k.af1 \oplus Mult(dt \otimes k.af2, 2)
Micro(x) == Over(Down(Down(x)), 10)           \* microseconds as thousands of seconds
InvC2 == <<0, 111, 2650, 560, 5361>>          \* 10^9 / c^2
\* derivatives over a second to either side
Step == <<0, 10, 0, 0, 0>>
Diff(a, b) == Vscale(Vsub(a, b), Num(500))
Second(a, m, b) == [i \in 1..3 |-> Mult(Mult((a[i] \ominus m[i]) \oplus (b[i] \ominus m[i]), 1000), 1000)] \o <<>>
Kepler(c, geo, k, toe, dtoe, dtoc) ==
  LET pol == Poly(k, dtoc) \ominus k.tgd
      dt == dtoe \ominus Micro(pol)
      p == KeplerPos(c, geo, k, toe, dt)
      a == KeplerPos(c, geo, k, toe, dt \ominus Step)
      b == KeplerPos(c, geo, k, toe, dt \oplus Step)
      r == Vnorm(p)
      rd == Mult(Vnorm(b) \ominus Vnorm(a), 500)
  IN [pos |-> p, vel |-> Diff(b, a), acc |-> Second(a, p, b), clk |-> pol \ominus (Mult(InvC2 \otimes r, 2) \otimes rd), rate |-> Rate(k, dtoc)]
\* ================= equations of motion (PZ-90): y = position and velocity
Glo2 == <<0, 16, 2393, 8625, 0>>              \* three halves of the second zonal harmonic
GloA == <<6, 3781, 3600, 0, 0>>
Pull(x, v, g) ==
  LET r2 == Vdot(x, x)
      m == Mu("glo") \oslash (r2 \otimes Sqrt(r2))
      q == (Glo2 \otimes Sq(GloA)) \oslash r2
      z == Mult(Sq(x[3]) \oslash r2, 5)
      w == Spin("glo")
      hor == Neg(m \otimes (One \oplus (q \otimes (One \ominus z)))) \oplus Sq(w)
      ver == Neg(m \otimes (One \oplus (q \otimes (Num(3) \ominus z))))
  IN <<((hor \otimes x[1]) \oplus Mult(w \otimes v[2], 2)) \oplus g[1], ((hor \otimes x[2]) \ominus Mult(w \otimes v[1], 2)) \oplus g[2], (ver \otimes x[3]) \oplus g[3]>>
Lin(a, b, h) == [i \in 1..3 |-> a[i] \oplus (b[i] \otimes h)] \o <<>>
Mean(a, b, c, d) == [i \in 1..3 |-> Over((a[i] \oplus d[i]) \oplus Mult(b[i] \oplus c[i], 2), 6)] \o <<>>
Runge(x, v, g, h) ==
  LET a1 == Pull(x, v, g)
      v2 == Lin(v, a1, Half(h))
      a2 == Pull(Lin(x, v, Half(h)), v2, g)
      v3 == Lin(v, a2, Half(h))
      a3 == Pull(Lin(x, v2, Half(h)), v3, g)
      v4 == Lin(v, a3, h)
      a4 == Pull(Lin(x, v3, h), v4, g)
  IN <<Lin(x, Mean(v, v2, v3, v4), h), Lin(v, Mean(a1, a2, a3, a4), h)>>
RECURSIVE March(_, _, _, _)
March(y, g, h, n) == IF n = 0 THEN y ELSE March(Runge(y[1], y[2], g, h), g, h, n - 1)
\* steps of at most a minute
Steps_(dt) == LET m == Mag(dt) IN (m[1] * 10000 + m[2]) \div 600 + 1
Glonass(g, dtoe) ==
  LET clk == (Neg(g.tau) \oplus (g.gamma \otimes dtoe)) \ominus g.tgd
      dt == dtoe \ominus Micro(clk)
      n == Steps_(dt)
      y == March(<<g.pos, g.vel>>, g.acc, Over(dt, n), n)
  IN [pos |-> y[1], vel |-> y[2], acc |-> Pull(y[1], y[2], g.acc), clk |-> clk, rate |-> g.gamma]
\* ================= polynomial
Sbas(s, dtoe) ==
  LET clk == s.af0 \oplus (s.af1 \otimes dtoe)
      dt == dtoe \ominus Micro(clk)
  IN [pos |-> Lin(Lin(s.pos, s.vel, dt), s.acc, Half(Sq(dt))), vel |-> Lin(s.vel, s.acc, dt), acc |-> s.acc, clk |-> clk, rate |-> s.af1]
\* ================= seen from a place on the ground
\* shift of the carrier f (MHz), in kHz, by the growth of the distance
Shift(f, p, v, q, u) == LET d == Vsub(p, q) IN (f \otimes (Vdot(d, Vsub(v, u)) \oslash Vnorm(d))) \oslash <<299, 7924, 5800, 0, 0>>
===============================================================================
