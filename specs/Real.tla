----------------------------------- MODULE Real ----------------------------------
(* Matrices of real numbers in fixed point, and the equations that characterise     *)
(* inverses, factorisations and least squares; residuals instead of algorithms.     *)
EXTENDS Fix
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Mat(n, m, f(_, _)) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)] \o <<>>] \o <<>>
Of(n, m, s) == Mat(n, m, LAMBDA i, j : s[(i - 1) * m + j])
Sum(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN Zero ELSE s[i - 1] \oplus f(i) IN s[n]
Mul(A, C) == Mat(Rows(A), Cols(C), LAMBDA i, j : Sum(LAMBDA k : A[i][k] \otimes C[k][j], Cols(A)))
Tr_(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
Scale(A, d) == Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j] \otimes d[j])
Same(A, C, tol) == Rows(A) = Rows(C) /\ Cols(A) = Cols(C) /\ \A i \in 1..Rows(A), j \in 1..Cols(A) : Close(A[i][j], C[i][j], tol)
Ones(n) == [i \in 1..n |-> One] \o <<>>
Symmetric(A, tol) == Same(A, Tr_(A), tol)
\* X inverts A
Inverse(A, X, tol) == Same(Mul(A, X), Eye(Rows(A)), tol) /\ Same(Mul(X, A), Eye(Rows(A)), tol)
\* X is the weighted left inverse of a tall A: X A = I and W A X is symmetric
LeftInverse(A, X, w, tol) == Same(Mul(X, A), Eye(Cols(A)), tol) /\ Symmetric(Tr_(Scale(Tr_(Mul(A, X)), w)), tol)
\* X is the weighted right inverse of a wide A: A X = I and X A W is symmetric
RightInverse(A, X, w, tol) == Same(Mul(A, X), Eye(Rows(A)), tol) /\ Symmetric(Scale(Mul(X, A), w), tol)
UpperUnit(U) == \A i \in 1..Rows(U) : U[i][i] = One /\ \A j \in 1..(i - 1) : U[i][j] = Zero
UpperTri(R) == \A i \in 1..Rows(R) : \A j \in 1..(i - 1) : R[i][j] = Zero
Udu(U, d) == Mul(Scale(U, d), Tr_(U))
Gram(A, w) == Mul(Scale(Tr_(A), w), A)
===============================================================================
