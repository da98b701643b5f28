---------------------------------- MODULE FixMC ---------------------------------
(* A point walks over the numbers by additions, products and quotients with chosen *)
(* others; wherever it stands the laws of arithmetic and of the functions hold.    *)
EXTENDS Fix
CONSTANTS Steps
VARIABLES x, n
vars == <<x, n>>
Pool == {<<0, 7, 3141, 5926, 5358>>, <<0, 5000, 0, 0, 0>>, <<-1, 8765, 4321, 9876, 5432>>, <<1, 4142, 1356, 2373, 951>>,
         <<3, 9999, 9999, 9999, 9999>>, <<-7, 1, 0, 0, 1>>, <<12, 3456, 7890, 1234, 5678>>}
Ok(y) == y[1] > -30 /\ y[1] < 30
Init == x \in Pool /\ n = 0
Step(y) == Ok(y) /\ x' = y
Next == n < Steps /\ n' = n + 1 /\ \E p \in Pool : Step(x \oplus p) \/ Step(x \ominus p) \/ Step(x \otimes p) \/ Step(x \oslash p)
Spec == Init /\ [][Next]_vars
\* ---- laws
Form == \A i \in 2..5 : x[i] \in 0..(B - 1)
Ring == \A p \in Pool : /\ x \oplus p = p \oplus x /\ x \otimes p = p \otimes x
                        /\ (x \oplus p) \ominus p = x
                        /\ Close(x \otimes (p \oplus One), (x \otimes p) \oplus x, E16(2))
                        /\ Mag(x \ominus p) = Mag(p \ominus x)
                        /\ Less(x, p) \/ Less(p, x) \/ x = p
                        /\ ~(Less(x, p) /\ Less(p, x))
Field == /\ \A p \in Pool : Close((x \oslash p) \otimes p, x, E16(30))
         /\ \A k \in {2, 3, 7, 113, 199999} : Close(Over(x, k), IF k < 20000 THEN x \oslash Num(k) ELSE Over(x, k), E16(2))
         /\ \A k \in {2, 3, 7, 113} : Close(Mult(Over(x, k), k), x, E16(k))
         /\ (Down(Up(x)) = x /\ Close(Ratio(Down(x), Down(One)), x, E12(1))) \/ Mag(x)[1] > 0
Root == LET m == Mag(x) r == Sqrt(m) IN ~IsNeg(r) /\ Close(Sq(r), m, E16(40))
Circle == LET s == SinCosOf(x) IN
  /\ Close(Sq(s[1]) \oplus Sq(s[2]), One, E16(8))
  /\ Sin(Neg(x)) = Neg(s[1]) \/ Close(Sin(Neg(x)), Neg(s[1]), E16(8))
  /\ \A p \in Pool : LET t == SinCosOf(p) u == SinCosOf(x \oplus p) IN
       /\ Close(u[1], (s[1] \otimes t[2]) \oplus (s[2] \otimes t[1]), E16(30))
       /\ Close(u[2], (s[2] \otimes t[2]) \ominus (s[1] \otimes t[1]), E16(30))
\* between -20 and 4 for the exponential
Growth == (x[1] > -9 /\ x[1] < 4) =>
  LET e == Exp(x) h == Exp(Half(x)) IN
  /\ Close(Sq(h), e, E16(2000)) /\ Close(e \otimes Exp(Neg(x)), One, E12(2))
  /\ Close(Ln(h), Half(x), E12(1)) \/ x[1] < -8
Logs == LET m == Mag(x) IN (m[1] < 30 /\ (m[1] > 0 \/ m[2] > 500)) => Close(Ln(Sq(m)), Mult(Ln(m), 2), E12(1)) \/ (m[1] = 0 /\ m[2] < 2000)
\* pi = 16 arctan 1/5 - 4 arctan 1/239, by the series of the arctangent
RECURSIVE Arc(_, _, _, _, _)
Arc(p, d2, k, sgn, acc) == IF k > 31 THEN acc
  ELSE Arc(Over(p, d2), d2, k + 2, -sgn, IF sgn > 0 THEN acc \oplus Over(p, k) ELSE acc \ominus Over(p, k))
Machin == Mult(Arc(Over(One, 5), 25, 1, 1, Zero), 16) \ominus Mult(Arc(Over(One, 239), 57121, 1, 1, Zero), 4)
\* known values
Sixth == Over(Pi, 6)
Known == /\ Close(Sin(Sixth), Half(One), E16(4)) /\ Close(Cos(Over(Pi, 3)), Half(One), E16(4))
         /\ Close(Sin(Half(Pi)), One, E16(4)) /\ Close(Cos(Pi), Num(-1), E16(4)) /\ Close(Sin(Pi), Zero, E16(4))
         /\ Close(Sq(Sin(Over(Pi, 4))), Half(One), E16(4)) /\ Close(Sqrt(Num(2)), <<1, 4142, 1356, 2373, 950>>, E16(2))
         /\ Close(Exp(One), <<2, 7182, 8182, 8459, 452>>, E16(8)) /\ Close(Ln(Num(2)), Ln2, E16(8))
         /\ Close(Ln(Num(10)), <<2, 3025, 8509, 2994, 457>>, E16(8)) /\ Exp(Zero) = One /\ Sin(Zero) = Zero
         /\ Close(Machin, Pi, E16(40))
===============================================================================
