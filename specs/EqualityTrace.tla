----------------------------- MODULE EqualityTrace -----------------------------
EXTENDS Equality, Tr
VARIABLE l
E == Trace[l]
Diffs == {<<E.ch[i][1], E.ch[i][2]>> : i \in DOMAIN E.ch}
Family == IF E.c < 0 THEN "GPS" ELSE Code(E.c).c
\* exact comparison of an SBAS almanac is as good as one with a tolerance
Unsettled == E.k = "alm" /\ Family = "SBAS" /\ \E x \in Diffs : x[2] = "within" /\ x[1] \in Model3
EqOk == LET v == Bool(Equal(E.k, Family, Diffs)) IN
        /\ E.ab = E.ba
        /\ (E.ab = v \/ (Unsettled /\ v = 1))
\* order of two measurements: constellation, code, satellite
Lex(a, b) == IF ConsNum(Code(a[1]).c) # ConsNum(Code(b[1]).c) THEN ConsNum(Code(a[1]).c) - ConsNum(Code(b[1]).c)
             ELSE IF a[1] # b[1] THEN a[1] - b[1] ELSE a[2] - b[2]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpOk == E.r = Sgn(Lex(E.a, E.b))
\* a pseudorange counts when it is valid and not excluded
Bit(x, i) == (x \div (2 ^ i)) % 2
PrOk == \A i \in DOMAIN E.r : LET f == E.f + i - 1 IN E.r[i] = Bool(Bit(f, 0) = 1 /\ Bit(f, 6) = 0)
\* two numbers are equal when they lie less than 1e-12 apart (70.4 ticks of 2^-46),
\* and within a tolerance when less than it apart
Mag(x) == IF x < 0 THEN -x ELSE x
TolOk == LET q == Bool(Mag(E.d) <= 70) IN
         /\ E.r[1] = q /\ E.r[2] = q /\ E.r[3] \in {q, -1}
         /\ E.r[4] = Bool(Mag(E.d) < E.t)
Ok == CASE E.e = "eq" -> EqOk
        [] E.e = "cmp" -> CmpOk
        [] E.e = "pr" -> PrOk
        [] E.e = "tol" -> TolOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
