-------------------------------- MODULE OrbitTrace -------------------------------
EXTENDS Orbit, Tr
VARIABLE l
E == Trace[l]
KeyOf(x) == [sa |-> x.sa, ecc |-> x.ecc, m0 |-> x.m0, w |-> x.w, om0 |-> x.om0, in |-> x.in, dn |-> x.dn, omd |-> x.omd, ind |-> x.ind,
             cus |-> x.cus, cuc |-> x.cuc, cis |-> x.cis, cic |-> x.cic, crs |-> x.crs, crc |-> x.crc, af0 |-> x.af0, af1 |-> x.af1, af2 |-> x.af2, tgd |-> x.tgd]
\* metres: a millionth of 10^-6 is E12(1); speeds to 0.1 mm/s, acceleration to 10^-7 m/s^2, clocks to 10^-13 s
Meets(s, pt, vt, at) == /\ AllSane(E.pos) /\ Vclose(E.pos, s.pos, pt) /\ AllSane(E.vel) /\ Vclose(E.vel, s.vel, vt)
                        /\ AllSane(E.acc) /\ Vclose(E.acc, s.acc, at) /\ Sane(E.clk) /\ Close(E.clk, s.clk, E8(10))
                        /\ Sane(E.rate) /\ Close(E.rate, s.rate, E12(1))
KepOk == Meets(Kepler(E.c, E.geo = 1, KeyOf(E), E.toe, E.de, E.dc), E12(8), E8(10), E8(10))
GloOk == Meets(Glonass([pos |-> E.p0, vel |-> E.v0, acc |-> E.a0, tau |-> E.tau, gamma |-> E.gamma, tgd |-> E.tgd], E.de), E12(1000), E12(1000), E12(1000))
SbaOk == Meets(Sbas([pos |-> E.p0, vel |-> E.v0, acc |-> E.a0, af0 |-> E.af0, af1 |-> E.af1], E.de), E12(1), E12(10), E12(10))
\* the same through every entry: with validity refused, without it passed through
WayOk == /\ E.rcn = 0
         /\ E.rct = Bool(E.st = E.valid) - 1 /\ (E.rct = 0 => E.samet = 1)
         /\ E.rcm = Bool(E.st = E.valid) - 1 /\ (E.rcm = 0 => E.samem = 1)
         /\ E.rca = E.rct /\ E.rcd = E.rct /\ E.rcu = 0
\* almanacs: valid, healthy, dated, with an interval, and within half of it
AlmOk == LET u == E.v = 1 /\ E.h = 1 /\ E.wn = 1 /\ E.fit = 1 /\ E.near = 1 IN
         /\ E.rc = Bool(u) - 1 /\ E.rca = E.rc /\ E.rcd = E.rc
\* azimuth and elevation of the place computed for the satellite
AzOk == LET p == Place(E.g[1], E.g[2]) u == MatVec(NedAt(p), Vsub(E.v, E.r)) n == Vnorm(u) IN
  /\ Vclose(EcefAt(p, E.g[3]), E.r, E12(1))
  /\ Sane(E.a) /\ Sane(E.el) /\ ~IsNeg(E.a) /\ AtMost(E.a, Mult(Pi, 2) \oplus E16(8)) /\ LatOk(E.el)
  /\ Vclose(Vscale(Look(E.a, E.el), n), u, n \otimes E8(10))
DopOk == Sane(E.d) /\ Close(E.d, Shift(E.f, E.p, E.v, E.q, E.u), E12(100))
Ok == CASE E.e = "kep" -> KepOk [] E.e = "glo" -> GloOk [] E.e = "sba" -> SbaOk [] E.e = "way" -> WayOk [] E.e = "alm" -> AlmOk [] E.e = "az" -> AzOk [] E.e = "dop" -> DopOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
