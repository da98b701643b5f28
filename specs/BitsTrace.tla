------------------------------- MODULE BitsTrace ------------------------------
(* Records carry whole buffers, and 64-bit values as four 16-bit words.        *)
EXTENDS BitField, Tr
VARIABLE l
E == Trace[l]
\* E.v[n] is the value read with width E.n0 + n - 1
GetU == \A n \in DOMAIN E.v : LET L == E.n0 + n - 1 IN BitsW(E.v[n]) = Zext(Field(E.b, E.p, L), 64)
GetS == \A n \in DOMAIN E.v : LET L == E.n0 + n - 1 IN BitsW(E.v[n]) = Sext(Field(E.b, E.p, L), 64)
\* widths outside 1..max leave the buffer alone
SetOk == LET s == Bits(E.b) IN
  Bits(E.o) = IF E.n = 0 \/ E.n > E.max THEN s ELSE SetF(s, E.p, Low(BitsW(E.v), E.n))
CopyOk == Bits(E.o) = CopyF(Bits(E.d), E.dp, Bits(E.s), E.sp, E.n) /\ E.s2 = E.s
ShlOk == Bits(E.o) = ShlF(Bits(E.b), IF E.n > 8 * Len(E.b) THEN 8 * Len(E.b) ELSE E.n)
ParOk == \A i \in DOMAIN E.r : E.r[i] = Ones(BitsW(<<E.hi, E.lo + i - 1>>)) % 2
IlvOk == \A y \in 0..255 : BitsW(<<E.r[y + 1]>>) =
           [i \in 1..16 |-> IF i % 2 = 1 THEN BitOf(<<y>>, (i - 1) \div 2) ELSE BitOf(<<E.x>>, (i \div 2) - 1)]
CntOk == \A i \in DOMAIN E.v : LET c == Ones(Low(BitsW(E.v[i]), E.w)) IN E.r1[i] = c /\ E.r0[i] = E.w - c
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* E.v: value, most significant byte first; memory images of the conversions
EndOk == /\ E.be = E.v /\ E.le = Rev(E.v)
         /\ E.fbe = E.v /\ E.fle = E.v /\ E.sw = Rev(E.v)
Ok == CASE E.e = "getu" -> GetU
        [] E.e = "gets" -> GetS
        [] E.e = "set" -> SetOk
        [] E.e = "copy" -> CopyOk
        [] E.e = "shl" -> ShlOk
        [] E.e = "par" -> ParOk
        [] E.e = "ilv" -> IlvOk
        [] E.e = "cnt" -> CntOk
        [] E.e = "end" -> EndOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
