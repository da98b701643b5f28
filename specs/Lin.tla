----------------------------------- MODULE Lin ----------------------------------
(* Matrices with integer entries: a matrix is a sequence of rows.  Operations by  *)
(* definition; inverses and factorisations by the law that characterises them.    *)
EXTENDS Integers, Sequences, FiniteSets
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + f(i) IN s[n]
Mat(n, m, f(_, _)) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)] \o <<>>] \o <<>>
\* the flat row-by-row storage of the code
Of(n, m, s) == Mat(n, m, LAMBDA i, j : s[(i - 1) * m + j])
Mul(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : Sum(LAMBDA k : A[i][k] * B[k][j], Cols(A)))
Tr_(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
AddSc(A, B, g) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] + g * B[i][j])
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Diag(d) == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
Scale(A, d) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] * d[j])
Upper(A) == Mat(Rows(A), Cols(A), LAMBDA i, j : IF j < i THEN 0 ELSE A[i][j])
Pick(A, r, c) == Mat(Len(r), Len(c), LAMBDA i, j : A[r[i] + 1][c[j] + 1])
Corner(A, n, m) == Mat(n, m, LAMBDA i, j : A[i][j])
Dot(a, b) == Sum(LAMBDA i : a[i] * b[i], Len(a))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* ---- determinant (exact, by cofactors) and invertibility modulo a prime
Minor(A, j) == Mat(Rows(A) - 1, Cols(A) - 1, LAMBDA i, k : A[i + 1][IF k < j THEN k ELSE k + 1])
RECURSIVE Det(_)
Det(A) == IF Rows(A) = 1 THEN A[1][1]
          ELSE Sum(LAMBDA j : IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, j)), Rows(A))
P == 40009
Mod(x) == x % P
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE LET h == Power(x, n \div 2) q == (h * h) % P IN IF n % 2 = 1 THEN (q * x) % P ELSE q
Inv(x) == Power(Mod(x), P - 2)
\* eliminate: some row starting with a unit; its multiples leave the others
RECURSIVE Regular(_)
Regular(A) == LET n == Rows(A) c == {i \in 1..n : A[i][1] % P # 0} IN
  IF c = {} THEN FALSE ELSE IF n = 1 THEN TRUE ELSE
  LET p == CHOOSE i \in c : TRUE
      r == [i \in 1..(n - 1) |-> IF i < p THEN i ELSE i + 1] \o <<>>
      v == Inv(A[p][1])
  IN Regular(Mat(n - 1, n - 1, LAMBDA i, j : Mod(A[r[i]][j + 1] - Mod(Mod(A[r[i]][1] * v) * Mod(A[p][j + 1])))))
RegularInt(A) == Regular(Mat(Rows(A), Rows(A), LAMBDA i, j : Mod(A[i][j])))
\* singular for sure: exactly, for small matrices; by a vanishing row or column or a
\* repeated row otherwise
Singular(A) == LET n == Rows(A) IN
  IF n <= 4 THEN Det(A) = 0
  ELSE \/ \E i \in 1..n : \A j \in 1..n : A[i][j] = 0
       \/ \E j \in 1..n : \A i \in 1..n : A[i][j] = 0
       \/ \E i, k \in 1..n : i < k /\ A[i] = A[k]
\* ---- laws: X holds thousandths
Unit == 1000
Near(x, y, t) == Abs(x - y) <= t
\* A X = unit * C, given the rounding of X to whole thousandths
Solves(A, X, C) == \A i \in 1..Rows(A) : \A j \in 1..Cols(X) :
  Near(Sum(LAMBDA k : A[i][k] * X[k][j], Cols(A)), Unit * C[i][j], 1 + Sum(LAMBDA k : Abs(A[i][k]), Cols(A)))
IsInverse(A, X) == Solves(A, X, Eye(Rows(A)))
SolvesLeft(X, A, C) == \A i \in 1..Rows(X) : \A j \in 1..Cols(A) :
  Near(Sum(LAMBDA k : X[i][k] * A[k][j], Rows(A)), Unit * C[i][j], 1 + Sum(LAMBDA k : Abs(A[k][j]), Rows(A)))
Gram(A, w) == Mul(Scale(Tr_(A), w), A)
Ones(n) == [i \in 1..n |-> 1] \o <<>>
UpperUnit(U) == \A i \in 1..Rows(U) : U[i][i] = 1 /\ \A j \in 1..(i - 1) : U[i][j] = 0
UDU(U, d) == Mul(Scale(U, d), Tr_(U))
\* square root by its square: s in thousandths of an integer q's root
IsRoot(s, q) == s >= 0 /\ \/ q > 2000 /\ Near((s \div Unit) * (s \div Unit), q, 4 * (s \div Unit) + 4)
                          \/ q <= 2000 /\ Near(s * s, q * Unit * Unit, 2 * s + 2)
===============================================================================
