-------------------------------- MODULE CoordTrace -------------------------------
EXTENDS Coord, Tr
VARIABLE l
E == Trace[l]
Mu == E12(1)                      \* a micrometre
\* E.g: latitude, longitude and height the code converted to E.x; E.b: what it makes of E.x
FwdOk == /\ AllSane(E.x) /\ Vclose(E.x, Ecef(E.g[1], E.g[2], E.g[3]), Mu)
         /\ AllSane(E.b) /\ LatOk(E.b[1]) /\ LonOk(E.b[2])
         /\ Close(E.b[1], E.g[1], E12(2)) /\ Close(E.b[3], E.g[3], Mu)
         \* the longitude is lost only where it does not matter
         /\ Vclose(Ecef(E.b[1], E.b[2], E.b[3]), E.x, Mu)
\* any point, E.x, to E.g and back, E.b
InvOk == /\ AllSane(E.g) /\ LatOk(E.g[1]) /\ LonOk(E.g[2]) /\ AllSane(E.b)
         /\ E.pole = 1 => E.g[2] = Zero
         /\ ~IsNeg(E.g[3] \oplus SemiMajor)
         /\ Vclose(Ecef(E.g[1], E.g[2], E.g[3]), E.x, Mu) /\ Vclose(E.b, E.x, Mu)
\* degrees and radians
DegOk == \A i \in 1..2 : /\ Sane(E.d[i]) /\ Close(E.d[i] \otimes Over(Pi, 180), E.r[i], E12(1))
                         /\ Sane(E.b[i]) /\ Close(E.b[i], E.r[i], E12(1)) /\ E.hd[1] = E.r[3] /\ E.hb[1] = E.r[3]
\* the local frame at the reference E.r, whose latitude and longitude are E.g
Place_ == Place(E.g[1], E.g[2])
NedOk == LET M == NedAt(Place_) T == Mtr(M) IN
  /\ AllSane(E.g) /\ Vclose(EcefAt(Place_, E.g[3]), E.r, Mu)
  /\ \A i, j \in 1..3 : /\ Sane(E.m[3 * (i - 1) + j]) /\ Close(E.m[3 * (i - 1) + j], M[i][j], E12(1))
                        /\ Sane(E.m2[3 * (i - 1) + j]) /\ Close(E.m2[3 * (i - 1) + j], M[i][j], E12(1))
  /\ AllSane(E.n) /\ Vclose(E.n, MatVec(M, E.v), Mu)
  /\ AllSane(E.nd) /\ Vclose(E.nd, MatVec(M, Vsub(E.v, E.r)), Mu)
  /\ AllSane(E.ec) /\ Vclose(E.ec, MatVec(T, E.v), Mu)
  /\ AllSane(E.ed) /\ Vclose(E.ed, Vadd(MatVec(T, E.v), E.r), Mu)
  \* and back
  /\ AllSane(E.back) /\ Vclose(E.back, E.v, Mu)
\* the direction from the reference to the point: azimuth E.a in a turn, elevation E.el
AzOk == LET u == MatVec(NedAt(Place_), Vsub(E.v, E.r)) n == Vnorm(u) IN
  /\ Sane(E.a) /\ Sane(E.el) /\ ~IsNeg(E.a) /\ AtMost(E.a, Mult(Pi, 2) \oplus E16(8)) /\ LatOk(E.el)
  /\ Vclose(Vscale(Look(E.a, E.el), n), u, (n \otimes E8(10)) \oplus Mu)
  \* away from the zenith the elevation is sharp
  /\ Close(Sin(E.el) \otimes n, Neg(u[3]), (n \otimes E12(10)) \oplus Mu)
Ok == /\ E.same = 1
      /\ CASE E.e = "fwd" -> FwdOk [] E.e = "inv" -> InvOk [] E.e = "deg" -> DegOk [] E.e = "ned" -> NedOk [] E.e = "az" -> AzOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
