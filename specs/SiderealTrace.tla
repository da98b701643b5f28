------------------------------- MODULE SiderealTrace -----------------------------
EXTENDS Sidereal, Tr
VARIABLE l
E == Trace[l]
GmstOk == LET s == Num(3600 * E.t[1] + 60 * E.t[2] + E.t[3]) \oplus (E.f \oplus E.ut1)
          IN /\ Sane(E.g) /\ ~IsNeg(E.g) /\ AtMost(E.g, Mult(Pi, 2) \oplus E12(1))
             \* by the date of UT1; at midnight either of the two days
             /\ \E k \in -1..1 : LET u == s \ominus Num(86400 * k) IN
                  /\ ~IsNeg(u \oplus E4(1)) /\ AtMost(u, Num(86400) \oplus E4(1))
                  /\ Near(E.g, Gmst(DayNo(E.d[1], E.d[2], E.d[3]) + k, u), E12(120))
CurOk == /\ E.ok = Bool(E.tow = 1 /\ InCycle(E.wn, E.ref))
         /\ E.ok0 = Bool(E.tow = 1 /\ InCycle(E.wn, E.ref0))
Ok == CASE E.e = "gmst" -> GmstOk [] E.e = "cur" -> CurOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
