--------------------------------- MODULE LeapEdge ------------------------------
(* UTC and Moscow time within seconds of a UTC midnight, in fine ticks: F to the *)
(* second.  Day D ends at that midnight, with an inserted second or without      *)
(* (leap).  An instant is <<seconds, fine ticks>> from the end of 23:59:59.      *)
EXTENDS GloTime
CONSTANT F
FNorm(x) == <<x[1] + (x[2] \div F), x[2] % F>>
FPlus(a, b) == FNorm(<<a[1] + b[1], a[2] + b[2]>>)
FMinus(a, b) == FNorm(<<a[1] - b[1], a[2] - b[2]>>)
FNear(a, b, tol) == LET d == FMinus(a, b)
                    IN \/ d[1] = 0 /\ d[2] <= tol
                       \/ d[1] = -1 /\ F - d[2] <= tol
\* what the clocks show: <<day, h, m, s, fine ticks>>
Hms(k) == <<k \div 3600, (k % 3600) \div 60, k % 60>>
Shown(d, k, n) == LET h == Hms(k) IN <<d, h[1], h[2], h[3], n>>
UtcShown(x, D, leap) ==
  IF x[1] < 0 THEN Shown(D, 86400 + x[1], x[2])
  ELSE IF x[1] < leap THEN <<D, 23, 59, 60, x[2]>>
  ELSE Shown(D + 1, x[1] - leap, x[2])
GloShown(x, D, leap) ==
  IF x[1] >= 0 /\ x[1] < leap THEN <<D + 1, 2, 59, 60, x[2]>>
  ELSE Shown(D + 1, 10800 + x[1] - (IF x[1] < 0 THEN 0 ELSE leap), x[2])
\* and the instant a reading stands for
UtcMeant(r, D, leap) ==
  LET k == (r[1] - D - 1) * 86400 + (r[2] * 60 + r[3]) * 60 + r[4]
  IN FNorm(<<IF r[1] > D THEN k + leap ELSE k, r[5]>>)
GloMeant(r, D, leap) ==
  LET k == (r[1] - D - 1) * 86400 + (r[2] * 60 + r[3]) * 60 + r[4] - 10800
  IN FNorm(<<IF k >= 0 /\ r[4] < 60 THEN k + leap ELSE k, r[5]>>)
Proper(r, D, leap) == /\ r[2] \in 0..23 /\ r[3] \in 0..59 /\ r[4] \in 0..60
                      /\ r[4] = 60 => leap = 1 /\ r[3] = 59 /\ r[2] \in {2, 23}
===============================================================================
