-------------------------------- MODULE LinTrace -------------------------------
EXTENDS Lin, Tr
VARIABLE l
E == Trace[l]
A == Of(E.n, E.m, E.a)
MulOk == Of(E.n, E.p, E.c) = Mul(A, Of(E.m, E.p, E.b))
MuliOk == LET c == Mul(A, Of(E.m, E.p, E.b)) IN Of(E.n, E.p, E.c) = c /\ Of(E.n, E.p, E.d) = c
ElemOk == /\ Of(E.m, E.n, E.t) = Tr_(A) /\ E.cp = E.a
          /\ Of(E.n, E.m, E.s) = AddSc(A, Of(E.n, E.m, E.b), E.g)
          /\ Of(E.n, E.m, E.sc) = Scale(A, E.w)
SubOk == /\ Of(Len(E.r), Len(E.c), E.s) = Pick(A, E.r, E.c)
         /\ Of(E.ur, E.uc, E.u) = Corner(A, E.ur, E.uc)
FormOk == Of(E.n, E.n, E.u) = Upper(A) /\ Of(E.n, E.n, E.i) = Eye(E.n)
VecOk == LET n == E.n sq(v) == Dot(v, v) dif == [i \in 1..n |-> E.v[i] - E.w[i]] \o <<>> IN
  /\ E.dot[1] = Dot(E.v, E.w) /\ E.sum[1] = Unit * Sum(LAMBDA i : E.v[i], n)
  /\ IsRoot(E.nrm[1], sq(E.v)) /\ IsRoot(E.dst[1], sq(dif))
  /\ \A i \in 1..n : E.x[i] = E.v[i] + E.g * E.w[i] /\ E.y[i] = E.v[i] + E.w[i] /\ E.z[i] = dif[i]
  /\ (E.nz = 1) <=> sq(E.v) # 0
  \* unit length times the old length gives the old vector
  /\ E.nz = 1 => /\ \A i \in 1..n : Near((E.nv[i] * (E.nrm[1] \div 10)) \div 100, 10000 * E.v[i], Abs(E.v[i]) * 60 + 200 + E.nrm[1] \div 10) \/ E.nrm[1] > 1000000
                 /\ Near(sq(E.nv), 100000000, 10000 * n)
                 /\ \A i \in 1..n : E.nv[i] * E.v[i] >= 0
CrossOk == E.c = Cross(E.v, E.w)
\* a matrix that is regular must be inverted, one that is certainly singular refused
InvOk == /\ RegularInt(A) => E.rc = 0
         /\ Singular(A) => E.rc < 0
         /\ (E.rc = 0 /\ RegularInt(A) /\ \A i \in DOMAIN E.x : Abs(E.x[i]) < 1000000) => IsInverse(A, Of(E.n, E.n, E.x))
         /\ E.rc \in {0, -1}
\* Q orthogonal, R triangular, Q'A = R
QrOk == LET q == Of(E.n, E.n, E.qt) r == Of(E.n, E.n, E.r) n == E.n IN
  /\ (RegularInt(A) => E.rc = 0) /\ (Singular(A) => E.rc # 0)
  /\ E.low = 1
  /\ \A i, j \in 1..n : Near(Sum(LAMBDA k : q[i][k] * q[j][k], n), IF i = j THEN 1000000 ELSE 0, 1000 * n + 1000)
  /\ \A i, j \in 1..n : Near(Sum(LAMBDA k : q[i][k] * A[k][j], n), r[i][j], 2 + Sum(LAMBDA k : Abs(A[k][j]), n))
SolveOk == /\ (RegularInt(A) => E.rc = 0) /\ (Singular(A) => E.rc # 0)
           /\ RegularInt(A) => \A i \in 1..E.n : Near(Sum(LAMBDA k : A[i][k] * E.x[k], E.n), Unit * E.b[i], 1 + Sum(LAMBDA k : Abs(A[i][k]), E.n))
TriOk == LET U == Upper(A) IN
  /\ \A i \in 1..E.n : Sum(LAMBDA k : A[i][k] * E.b[k], E.n) = E.q[i]
  /\ \A i \in 1..E.n : Sum(LAMBDA k : U[i][k] * E.z[k], E.n) = E.b[i]
  /\ E.y = E.z
\* weighted normal equations: (A'WA) x = A'W b, (A'WA) V = I
LsqOk == LET w == IF E.nw = 1 THEN Ones(E.n) ELSE E.w G == Gram(A, w) y == Mul(Scale(Tr_(A), w), Of(E.n, 1, E.b)) IN
  IF E.n < E.m THEN E.rc = -1
  ELSE /\ E.rc \in {0, -1}
       /\ RegularInt(G) => E.rc = 0
       /\ Singular(G) /\ E.m <= 4 => E.rc = -1
       /\ (E.rc = 0 /\ RegularInt(G)) => /\ E.nx = 0 => Solves(G, Of(E.m, 1, E.x), y)
                                         /\ E.nv = 0 => IsInverse(G, Of(E.m, E.m, E.v))
\* left and right pseudo-inverses and their weighted forms
Tall(rc, q, w) == LET G == Gram(A, w) IN
  /\ (RegularInt(G) => rc = 0) /\ (Singular(G) /\ E.m <= 4 => rc = -1)
  /\ (rc = 0 /\ RegularInt(G)) => Solves(G, Of(E.m, E.n, q), Tr_(A))
Wide(rc, q, w) == LET G == Gram(Tr_(A), w) IN
  /\ (RegularInt(G) => rc = 0) /\ (Singular(G) /\ E.n <= 4 => rc = -1)
  /\ (rc = 0 /\ RegularInt(G)) => SolvesLeft(Of(E.m, E.n, q), G, Tr_(A))
PinvOk == /\ E.n > E.m => Tall(E.r1, E.q, Ones(E.n)) /\ Tall(E.r2, E.q2, E.w) /\ E.r3 = -1
          /\ E.n < E.m => Wide(E.r1, E.q, Ones(E.m)) /\ Wide(E.r3, E.q3, E.wm) /\ E.r2 = -1
          /\ E.n = E.m => E.r2 = -1 /\ E.r3 = -1 /\ (RegularInt(A) => E.r1 = 0 /\ IsInverse(A, Of(E.n, E.n, E.q)))
                          /\ (Singular(A) => E.r1 = -1)
UduOk == LET U0 == Of(E.n, E.n, E.u0) U == Of(E.n, E.n, E.u) IN
  /\ A = UDU(U0, E.d0) /\ UpperUnit(U) /\ \A i \in 1..E.n : E.d[i] >= 0
  /\ UDU(U, E.d) = A /\ Of(E.n, E.n, E.r) = A
Ok == /\ E.same = 1
      /\ CASE E.e = "mul" -> MulOk [] E.e = "muli" -> MuliOk [] E.e = "elem" -> ElemOk [] E.e = "sub" -> SubOk
           [] E.e = "form" -> FormOk [] E.e = "vec" -> VecOk [] E.e = "cross" -> CrossOk [] E.e = "inv" -> InvOk
           [] E.e = "qr" -> QrOk [] E.e = "solve" -> SolveOk [] E.e = "tri" -> TriOk [] E.e = "lsq" -> LsqOk
           [] E.e = "pinv" -> PinvOk [] E.e = "udu" -> UduOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
