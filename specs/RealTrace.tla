-------------------------------- MODULE RealTrace --------------------------------
EXTENDS Real, Tr
VARIABLE l
E == Trace[l]
A == Of(E.n, E.m, E.a)
Tol == E12(10)
InvOk == E.rc = 0 /\ AllSane(E.x) /\ Inverse(A, Of(E.n, E.n, E.x), Tol)
QrOk == LET q == Of(E.n, E.n, E.qt) r == Of(E.n, E.n, E.r) IN
  /\ E.rc = 0 /\ AllSane(E.qt) /\ AllSane(E.r) /\ UpperTri(r)
  /\ Same(Mul(q, Tr_(q)), Eye(E.n), Tol) /\ Same(Mul(q, A), r, Tol)
SolveOk == E.rc = 0 /\ AllSane(E.x) /\ Same(Mul(A, Of(E.n, 1, E.x)), Of(E.n, 1, E.b), Tol)
\* normal equations; V inverts the weighted normal matrix
LsqOk == LET w == IF E.nw = 1 THEN Ones(E.n) ELSE E.w IN
  /\ E.rc = 0
  /\ E.nx = 1 \/ (AllSane(E.x) /\ Same(Mul(Gram(A, w), Of(E.m, 1, E.x)), Mul(Scale(Tr_(A), w), Of(E.n, 1, E.b)), Tol))
  /\ E.nv = 1 \/ (AllSane(E.v) /\ Inverse(Gram(A, w), Of(E.m, E.m, E.v), Tol))
PinvOk == LET X(q) == Of(E.m, E.n, q) IN
  /\ E.n > E.m => E.r1 = 0 /\ AllSane(E.q) /\ LeftInverse(A, X(E.q), Ones(E.n), Tol) /\ E.r2 = 0 /\ AllSane(E.q2) /\ Same(Mul(Gram(A, E.w), X(E.q2)), Tr_(A), Tol)
  /\ E.n < E.m => E.r1 = 0 /\ AllSane(E.q) /\ RightInverse(A, X(E.q), Ones(E.m), Tol) /\ E.r3 = 0 /\ AllSane(E.q3) /\ Same(Mul(X(E.q3), Gram(Tr_(A), E.wm)), Tr_(A), Tol)
  /\ E.n = E.m => E.r1 = 0 /\ AllSane(E.q) /\ Inverse(A, X(E.q), Tol)
UduOk == LET U == Of(E.n, E.n, E.u) IN
  /\ AllSane(E.u) /\ AllSane(E.d) /\ AllSane(E.r) /\ UpperUnit(U) /\ (\A i \in 1..E.n : ~IsNeg(E.d[i]))
  /\ Same(Udu(U, E.d), A, Tol) /\ Same(Of(E.n, E.n, E.r), A, Tol)
ProdOk == AllSane(E.c) /\ Same(Of(E.n, E.p, E.c), Mul(A, Of(E.m, E.p, E.b)), Tol)
\* a vanishing row or column: no inverse, no solution
SingOk == E.r1 < 0 /\ E.r2 < 0 /\ E.r3 < 0
Ok == /\ E.same = 1
      /\ CASE E.e = "inv" -> InvOk [] E.e = "qr" -> QrOk [] E.e = "solve" -> SolveOk [] E.e = "lsq" -> LsqOk
           [] E.e = "pinv" -> PinvOk [] E.e = "udu" -> UduOk [] E.e = "prod" -> ProdOk [] E.e = "sing" -> SingOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
