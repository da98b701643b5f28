----------------------------------- MODULE Fix ----------------------------------
(* Real numbers in fixed point: <<t, a, b, c, d>> is t + a/B + b/B^2 + c/B^3 +     *)
(* d/B^4 with B = 10^4; the last four lie in 0..B-1, the first carries the sign.   *)
(* So sixteen decimals, magnitudes below 20000: a decimal literal is written by    *)
(* cutting its digits into fours.  Functions are given by convergent series and    *)
(* Newton steps; FixMC checks the laws they must obey.                             *)
EXTENDS Integers, Sequences
B == 10000
Carry(t, a, b, c, d) ==
  LET c1 == c + (d \div B)
      b1 == b + (c1 \div B)
      a1 == a + (b1 \div B)
  IN <<t + (a1 \div B), a1 % B, b1 % B, c1 % B, d % B>>
Num(n) == <<n, 0, 0, 0, 0>>
Zero == Num(0)
One == Num(1)
Limit == 20000
Sane(x) == x[1] > -Limit /\ x[1] < Limit
AllSane(s) == \A i \in DOMAIN s : Sane(s[i])
x \oplus y == Carry(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5])
x \ominus y == Carry(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5])
Neg(x) == Carry(-x[1], -x[2], -x[3], -x[4], -x[5])
IsNeg(x) == x[1] < 0
Mag(x) == IF x[1] < 0 THEN Neg(x) ELSE x
Less(x, y) == IsNeg(x \ominus y)
AtMost(x, y) == ~Less(y, x)
Close(x, y, tol) == AtMost(Mag(x \ominus y), tol)
\* n units of the fourth, eighth, twelfth and sixteenth place
E4(n) == Carry(0, n, 0, 0, 0)
E8(n) == Carry(0, 0, n, 0, 0)
E12(n) == Carry(0, 0, 0, n, 0)
E16(n) == Carry(0, 0, 0, 0, n)
\* convolution; what lies beyond the sixteenth place is rounded into it
x \otimes y ==
  LET f == x[5] * y[2] + x[4] * y[3] + x[3] * y[4] + x[2] * y[5]
      e == x[5] * y[1] + x[4] * y[2] + x[3] * y[3] + x[2] * y[4] + x[1] * y[5] + ((f + 5000) \div B)
      d == x[4] * y[1] + x[3] * y[2] + x[2] * y[3] + x[1] * y[4]
      c == x[3] * y[1] + x[2] * y[2] + x[1] * y[3]
      b == x[2] * y[1] + x[1] * y[2]
  IN Carry(x[1] * y[1], b, c, d, e)
Sq(x) == x \otimes x
\* by an integer |n| <= 20000
Mult(x, n) == Carry(x[1] * n, x[2] * n, x[3] * n, x[4] * n, x[5] * n)
\* by an integer 0 < n <= 200000
Over(x, n) ==
  LET a == (x[1] % n) * B + x[2]
      b == (a % n) * B + x[3]
      c == (b % n) * B + x[4]
      d == (c % n) * B + x[5] + n \div 2
  IN Carry(x[1] \div n, a \div n, b \div n, c \div n, d \div n)
Half(x) == Over(x, 2)
Up(x) == <<x[1] * B + x[2], x[3], x[4], x[5], 0>>   \* times B
Down(x) == Carry(0, x[1], x[2], x[3], x[4])        \* over B
\* ---- quotient: a first guess, Newton's iteration, and one correction
Guess(y) == IF y[1] >= 20 THEN Over(One, y[1]) ELSE Over(Num(B), y[1] * B + y[2])
NewtonR(y, g) == g \otimes (Num(2) \ominus (y \otimes g))
Recip(y) == NewtonR(y, NewtonR(y, NewtonR(y, NewtonR(y, Guess(y)))))
QuotPos(x, y) == LET g == Recip(y) q == x \otimes g IN q \oplus ((x \ominus (q \otimes y)) \otimes g)
\* divisors between 1/500 and 20000 in magnitude; smaller ones by scaling both
x \oslash y == IF IsNeg(y) THEN Neg(QuotPos(x, Neg(y))) ELSE QuotPos(x, y)
Ratio(x, y) == LET m == Mag(y) IN IF m[1] = 0 /\ m[2] < 20 THEN Up(x) \oslash Up(y) ELSE x \oslash y
\* ---- square root
Pow2(k) == 2 ^ k
SqrtGuess(x) ==
  LET k == CHOOSE k \in 0..7 : x[1] < 4 ^ (k + 1) /\ (k = 0 \/ x[1] >= 4 ^ k)
  IN IF x[1] = 0 THEN One ELSE Half(Num(3 * Pow2(k)))
NewtonS(x, y) == Half(y \oplus Ratio(x, y))
RECURSIVE SqrtIt(_, _, _)
SqrtIt(x, y, n) == IF n = 0 THEN y ELSE LET z == NewtonS(x, y) IN IF Close(z, y, E16(2)) THEN z ELSE SqrtIt(x, z, n - 1)
Sqrt(x) == IF x = Zero THEN Zero ELSE SqrtIt(x, SqrtGuess(x), 40)
\* ---- circular functions
Pi == <<3, 1415, 9265, 3589, 7932>>
PiLow == E16(-2)    \* ... to -(2 * 10^-16): see Turns; pi = 3.14159265358979323846
RECURSIVE SinS(_, _, _)
SinS(q, k, acc) == IF k = 0 THEN acc ELSE SinS(q, k - 1, One \ominus Over(q \otimes acc, (2 * k) * (2 * k + 1)))
RECURSIVE CosS(_, _, _)
CosS(q, k, acc) == IF k = 0 THEN acc ELSE CosS(q, k - 1, One \ominus Over(q \otimes acc, (2 * k - 1) * (2 * k)))
SmallSin(r) == r \otimes SinS(Sq(r), 9, One)
SmallCos(r) == CosS(Sq(r), 9, One)
\* nearest multiple of a quarter turn and what remains; 0.38462643 * 10^-16 is what
\* the literal of pi lacks
Quarters(x) == LET h == x \oplus Over(Pi, 4) y == (h[1] * 1000 + h[2] \div 10) IN (y * 2 * 113) \div 355000
Rest(x, k) == x \ominus Half(Mult(Pi, k) \oplus E16((k * 38) \div 100))
SinCosOf(x) ==
  LET k == Quarters(x) r == Rest(x, k) s == SmallSin(r) c == SmallCos(r) IN
  CASE k % 4 = 0 -> <<s, c>> [] k % 4 = 1 -> <<c, Neg(s)>> [] k % 4 = 2 -> <<Neg(s), Neg(c)>> [] OTHER -> <<Neg(c), s>>
Sin(x) == SinCosOf(x)[1]
Cos(x) == SinCosOf(x)[2]
\* ---- exponential and logarithm
Ln2 == <<0, 6931, 4718, 559, 9453>>
RECURSIVE ExpS(_, _, _)
ExpS(r, k, acc) == IF k = 0 THEN acc ELSE ExpS(r, k - 1, One \oplus Over(r \otimes acc, k))
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 THEN x ELSE Halve(Half(x), n - 1)
\* exp x for x in about -40..9
Exp(x) == LET k == (x[1] * 1000 + x[2] \div 10) \div 693
              r == x \ominus Mult(Ln2, k)
              y == ExpS(r, 20, One)
          IN IF k >= 0 THEN Mult(y, Pow2(k)) ELSE Halve(y, -k)
\* ln x for x in about 0.01..20000
LnIt(x, y) == y \ominus (One \ominus (x \otimes Exp(Neg(y))))
RECURSIVE LnN(_, _, _)
LnN(x, y, n) == IF n = 0 THEN y ELSE LET z == LnIt(x, y) IN IF Close(z, y, E16(4)) THEN z ELSE LnN(x, z, n - 1)
LnGuess(x) == LET k == CHOOSE k \in -13..14 : IF k >= 0 THEN x[1] >= Pow2(k) /\ x[1] < Pow2(k + 1) ELSE x[1] = 0 /\ Pow2(-k) * (x[2] + 1) > B /\ Pow2(-k - 1) * (x[2] + 1) <= B
              IN Mult(Ln2, k) \oplus E4(3466)
Ln(x) == LnN(x, LnGuess(x), 30)
Power(x, p) == Exp(p \otimes Ln(x))
\* ---- vectors
Vadd(a, b) == [i \in 1..3 |-> a[i] \oplus b[i]] \o <<>>
Vsub(a, b) == [i \in 1..3 |-> a[i] \ominus b[i]] \o <<>>
Vscale(a, k) == [i \in 1..3 |-> a[i] \otimes k] \o <<>>
Vdot(a, b) == (a[1] \otimes b[1]) \oplus ((a[2] \otimes b[2]) \oplus (a[3] \otimes b[3]))
Vclose(a, b, tol) == \A i \in 1..3 : Close(a[i], b[i], tol)
Vnorm(a) == Sqrt(Vdot(a, a))
MatVec(M, v) == [i \in 1..3 |-> Vdot(M[i], v)] \o <<>>
Mtr(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]] \o <<>>] \o <<>>
===============================================================================
