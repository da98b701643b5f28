-------------------------------- MODULE Stream --------------------------------
(* A cursor over a buffer of `len` units (bytes or bits).  Lengths, positions   *)
(* and the cursor range over all 32-bit numbers, represented as <<high, low>>   *)
(* 16-bit halves; sums are exact, with a third, most significant, part.        *)
EXTENDS BitField
B16 == 65536
\* exact sums of <<a2, a1, a0>>
W3(x) == <<0, x[1], x[2]>>
Add3(x, y) == LET s0 == x[3] + y[3] s1 == x[2] + y[2] + s0 \div B16
              IN <<x[1] + y[1] + s1 \div B16, s1 % B16, s0 % B16>>
Le3(x, y) == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ x[2] < y[2]
             \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] <= y[3]
\* x - y for y <= x
Sub3(x, y) == LET d0 == x[3] - y[3] b0 == IF d0 < 0 THEN 1 ELSE 0
                  d1 == x[2] - y[2] - b0 b1 == IF d1 < 0 THEN 1 ELSE 0
              IN <<x[1] - y[1] - b1, d1 + b1 * B16, d0 + b0 * B16>>
Inside(len, off, pos, n) == Le3(Add3(Add3(off, W3(pos)), W3(n)), W3(len))
Remaining(len, off) == IF Le3(W3(len), off) THEN <<0, 0, 0>> ELSE Sub3(W3(len), off)
Small(x) == x[1] * B16 + x[2]                   \* for numbers known to be small
===============================================================================
