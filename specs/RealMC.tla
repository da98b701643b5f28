---------------------------------- MODULE RealMC ---------------------------------
(* Plane rotations and stretchings applied one after another: the laws by which the *)
(* results of the code are judged characterise the inverse, the factors and the     *)
(* least-squares solution of what has been built.                                   *)
EXTENDS Real
CONSTANTS N, Depth
VARIABLES a, x, q, d, n
vars == <<a, x, q, d, n>>
\* a = the product so far, x = its inverse (kept alongside), q = the rotations alone, d = stretchings squared
Rot(i, j, s) == Mat(N, N, LAMBDA r, c : IF r = c THEN (IF r = i \/ r = j THEN s[2] ELSE One)
                                        ELSE IF r = i /\ c = j THEN Neg(s[1]) ELSE IF r = j /\ c = i THEN s[1] ELSE Zero)
Angles == {<<0, 7000, 0, 0, 0>>, <<-2, 3456, 7000, 0, 0>>}
Fs == {<<0, 5000, 0, 0, 0>>, Num(3)}
Stretch(i, f) == Mat(N, N, LAMBDA r, c : IF r # c THEN Zero ELSE IF r = i THEN f ELSE One)
Init == a = Eye(N) /\ x = Eye(N) /\ q = Eye(N) /\ d = 0 /\ n = 0
Turn == \E i, j \in 1..N, g \in Angles : i < j /\ LET s == SinCosOf(g) r == Rot(i, j, s) IN
  a' = Mul(r, a) /\ x' = Mul(x, Tr_(r)) /\ q' = Mul(r, q) /\ d' = d
Pull == d < 2 /\ \E i \in 1..N, f \in Fs : a' = Mul(Stretch(i, f), a) /\ x' = Mul(x, Stretch(i, One \oslash f)) /\ q' = q /\ d' = d + 1
Next == n < Depth /\ n' = n + 1 /\ (Turn \/ Pull)
Spec == Init /\ [][Next]_vars
Tol == E12(1)
W == [i \in 1..N |-> Half(Num(i + 1))] \o <<>>
InverseLaw == Inverse(a, x, Tol) /\ (~Same(a, Eye(N), Tol) => ~Inverse(a, a, Tol) \/ Same(Mul(a, a), Eye(N), Tol))
RotationLaw == Same(Mul(q, Tr_(q)), Eye(N), Tol) /\ Inverse(q, Tr_(q), Tol)
TransposeLaw == Same(Tr_(Mul(a, q)), Mul(Tr_(q), Tr_(a)), Tol)
\* the first column alone, and the first row alone
Tall == Mat(N, 1, LAMBDA i, j : a[i][1])
Wide == Tr_(Tall)
TallInv == LET g == Gram(Tall, W)[1][1] IN Mat(1, N, LAMBDA i, j : (Tall[j][1] \otimes W[j]) \oslash g)
WideInv == LET g == Sum(LAMBDA k : Sq(Wide[1][k]) \otimes W[k], N) IN Mat(N, 1, LAMBDA i, j : (Wide[1][i] \otimes W[i]) \oslash g)
PseudoLaw == LeftInverse(Tall, TallInv, W, Tol) /\ RightInverse(Wide, WideInv, W, Tol)
GramLaw == Symmetric(Gram(a, W), Tol) /\ Same(Gram(q, Ones(N)), Eye(N), Tol)
===============================================================================
