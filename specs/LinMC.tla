--------------------------------- MODULE LinMC ---------------------------------
(* Matrices reached from the identity by elementary row and column operations and *)
(* by one arbitrary replacement: the definitions satisfy the laws of algebra.     *)
EXTENDS Lin, TLC
CONSTANTS N, Big, Depth
VARIABLES A, det, d
Small(M) == \A i \in 1..N : \A j \in 1..N : Abs(M[i][j]) <= Big
Init == A = Eye(N) /\ det = 1 /\ d = 0
AddRow(i, j, g) == Mat(N, N, LAMBDA r, c : IF r = i THEN A[r][c] + g * A[j][c] ELSE A[r][c])
Swap(i, j) == Mat(N, N, LAMBDA r, c : A[IF r = i THEN j ELSE IF r = j THEN i ELSE r][c])
ScaleRow(i, g) == Mat(N, N, LAMBDA r, c : IF r = i THEN g * A[r][c] ELSE A[r][c])
Next == /\ d < Depth /\ d' = d + 1
        /\ \/ \E i, j \in 1..N, g \in {-1, 1, 2} : i # j /\ A' = AddRow(i, j, g) /\ det' = det
           \/ \E i, j \in 1..N : i < j /\ A' = Swap(i, j) /\ det' = -det
           \/ \E i \in 1..N, g \in {-1, 0, 2} : A' = ScaleRow(i, g) /\ det' = g * det
        /\ Small(A')
DetLaw == Det(A) = det /\ Det(Tr_(A)) = det
RegularLaw == RegularInt(A) <=> det % P # 0
SingularLaw == Singular(A) <=> det = 0
Adj == Mat(N, N, LAMBDA i, j : LET M == Mat(N - 1, N - 1, LAMBDA r, c : A[IF r < j THEN r ELSE r + 1][IF c < i THEN c ELSE c + 1])
                               IN (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(M))
AdjLaw == /\ Mul(A, Adj) = Diag([i \in 1..N |-> det] \o <<>>)
          /\ (det \in {-1, 1} => IsInverse(A, Mat(N, N, LAMBDA i, j : Unit * det * Adj[i][j])))
          /\ (det \in {-1, 1} => ~IsInverse(A, Mat(N, N, LAMBDA i, j : Unit * det * Adj[i][j] + (IF i = 1 /\ j = 1 THEN 20 * Big * Big ELSE 0))))
TransposeLaw == /\ Tr_(Mul(A, A)) = Mul(Tr_(A), Tr_(A)) /\ Tr_(Tr_(A)) = A
                /\ Mul(Upper(A), Eye(N)) = Upper(A)
                /\ Gram(A, Ones(N)) = Tr_(Gram(A, Ones(N)))
                /\ Corner(A, N - 1, N) = Pick(A, [i \in 1..(N - 1) |-> i - 1] \o <<>>, [i \in 1..N |-> i - 1] \o <<>>)
CrossLaw == N = 3 => LET c == Cross(A[1], A[2]) IN Dot(c, A[1]) = 0 /\ Dot(c, A[2]) = 0 /\ Dot(c, A[3]) = det
                     /\ Dot(c, c) = Dot(A[1], A[1]) * Dot(A[2], A[2]) - Dot(A[1], A[2]) * Dot(A[1], A[2])
===============================================================================
