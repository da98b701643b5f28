-------------------------------- MODULE SppTrace -------------------------------
EXTENDS Spp, Tr
VARIABLE l
E == Trace[l]
Cfg == [ax |-> E.ax, st |-> E.st, mask |-> E.mask, raim |-> E.nr = 0, vel |-> E.nv = 0, alt |-> E.alt, sp |-> E.sp]
Near(x, y, t) == x - y <= t /\ y - x <= t
\* a square figure compared with its exact value: a hair of rounding
Fig(x, y) == Near(x, y, 3 + y \div 20000)
Vel(U) == E.nv = 0 /\ \A i \in U : E.ms[i].dop = 1
Abs(x) == IF x < 0 THEN -x ELSE x
\* local level axes at the three receiver places: north, east, down as <<axis, sign>>
Ned == <<<<<<3, 1>>, <<2, 1>>, <<1, -1>>>>, <<<<3, 1>>, <<1, -1>>, <<2, -1>>>>>>
VelOk(U) == IF Vel(U)
  THEN /\ E.vv = 1 /\ E.ve <= 5 /\ Near(E.cd, 10 * E.fd, 8)
       /\ E.ax < 3 => \A i \in 1..3 : Near(E.nv3[i], Ned[E.ax][i][2] * E.ev[Ned[E.ax][i][1]], 1)
       /\ E.ax = 3 => Near(E.nv3[3], -E.ev[3], 1)
  ELSE E.vv = 0 /\ \A i \in 1..3 : E.ev[i] = 0 /\ E.nv3[i] = 0
\* variances are known exactly when all signals are strong and of one class
OneClass(K) == /\ \A i \in K : E.ms[i].q = 2500
               /\ \E v \in {Var(E.ms[i].c, E.ms[i].el, E.ms[i].pl) : i \in K} :
                    v > 0 /\ \A i \in K : Var(E.ms[i].c, E.ms[i].el, E.ms[i].pl) = v
LockMul == IF E.lk >= 4 THEN 4 ELSE IF E.lk = 2 THEN 10 ELSE 16
\* LockMul: in quarters (lock time 2 s: 2.5; 0 s: 4)
CovOk(K, g, k) ==
  LET i == CHOOSE i \in K : TRUE
      v == (Var(E.ms[i].c, E.ms[i].el, E.ms[i].pl) \div 10) * LockMul \* 1/40 square metres
      w == (IF E.ms[i].pl = 1 THEN 1 ELSE 16) * LockMul  \* Doppler
      t2 == Tdop2(g, E.ms, K, k)
      Same(x, h, u) == Near(x, (h * u) \div 40, 3 + u \div 20 + Abs((h * u) \div 40) \div 10000)
  IN /\ \A j \in 1..6 : Abs(CovOf(g, j)) < 40000 => Same(E.cv[j], CovOf(g, j), v)
     /\ t2 < 40000 => Same(E.bv, t2, v)
     \* one code, so one wavelength, and one carrier
     /\ (E.vv = 1 /\ \A j \in DOMAIN E.ms : E.ms[j].c = E.ms[1].c /\ E.ms[j].c \notin {3, 4}) =>
        /\ \A j \in 1..6 : Abs(CovOf(g, j)) < 40000 => Same(E.cw[j], CovOf(g, j), w)
        /\ t2 < 40000 => Same(E.dv, t2, w)
DopOk(K, k) == Small(E.ms, K, k) =>
  LET g == Geo(E.ms, K, k)
      p == Pdop2(g) t == Tdop2(g, E.ms, K, k) v == Vdop2(g, E.ax)
  IN /\ Fig(E.dop[1], p) /\ Fig(E.dop[2], t) /\ Fig(E.dop[3], p + t) /\ Fig(E.dop[4], v)
     /\ Near(E.dop[5], p - v, 3 + p \div 20000)
     /\ Fig(E.gd, p + t) /\ (E.vv = 1 => E.gv = E.gd)
     /\ OneClass(K) => CovOk(K, g, k)
\* a released solution computed from the measurements K
Solved(K) == LET a == Used(E.st, E.mask, E.ms) k == a.k b == E.b[ConsNum(k[1]) + 1] IN
  /\ E.val = 1 /\ E.tn = 1
  /\ E.ng = Cardinality(K) /\ E.ns = Cardinality(SatsOf(E.ms, K))
  /\ E.pe <= 500 /\ Near(E.h, 100 * E.alt, 6)
  /\ Near(E.co, 10 * b, 2) /\ Near(E.td, 10 * b, 8)
  /\ VelOk(a.u)
  /\ (E.rc = 1 /\ E.rn >= 0) => /\ {E.rm[i] : i \in DOMAIN E.rm} = a.u \ K
                              /\ E.rn = Cardinality(a.u \ K)
  /\ DopOk(K, k)
\* a repaired solution: one or two signals are left out, or all but GPS; each is one
\* of those used, and the rest are counted
ExcludedOk == LET a == Used(E.st, E.mask, E.ms) R == {E.rm[i] : i \in DOMAIN E.rm} IN
  /\ R \subseteq a.u /\ E.rn = Cardinality(R) /\ E.ng = Cardinality(a.u) - E.rn
  /\ E.ns = Cardinality(SatsOf(E.ms, a.u \ R))
  /\ E.rn \in 1..RaimExclusions \/ \A i \in a.u \ R : Cons(E.ms[i].c) = "GPS"
SppOk == /\ E.same = 1
         /\ E.rc < 0 => E.val = 0 /\ E.vv = 0 /\ E.ns = 0 /\ E.ng = 0
         /\ \E o \in Outcomes(Cfg, E.ms) : E.rc = o[1] /\ ((E.rc >= 0 /\ o[2] # {}) => Solved(o[2]))
         /\ (E.rc = 1 /\ E.rn >= 0) => ExcludedOk
         /\ E.rc >= 0 => E.vv \in {0, 1} /\ E.val = 1 /\ (E.nv = 1 => E.vv = 0) /\ (E.vv = 0 => E.dv = 0 /\ E.cd = 0)
NoCodeOk == LET a == Used(E.st, E.mask, E.ms) IN (E.stopped = 1) <=> \E i \in a.u : E.cv[i] = 0
Ok == CASE E.e = "spp" -> SppOk [] E.e = "nocode" -> NoCodeOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
