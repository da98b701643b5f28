------------------------------ MODULE QuantTrace ------------------------------
EXTENDS Quant, Tr
VARIABLE l
E == Trace[l]
\* every index of one decoder, values in tenths of a metre / centimetres
DecOk == \A i \in 0..255 : E.r[i + 1] = (CASE E.k = "ura" -> UraOf(i) [] E.k = "bds" -> BdsUraOf(i) [] E.k = "sisa" -> SisaOf(i)
                                          [] E.k = "lock" -> LockMin(i))
\* accuracies just below, at and just above n .. n + len - 1 tenths of a metre
EncOk == \A i \in DOMAIN E.r : LET m == E.n + i - 1 IN
           E.r[i] = <<IndexOf(m, -1), IndexOf(m, 0), IndexOf(m, 1)>>
\* lock times of n + i milliseconds
LockOk == \A i \in DOMAIN E.r : E.r[i] = LockCode(E.n + (i - 1) * E.step)
HugeOk == \A i \in DOMAIN E.r : E.r[i] = 15
\* re-encoding what was decoded
InvOk == \A i \in 0..15 : E.u[i + 1] = i /\ E.l[i + 1] = i
Ok == CASE E.e = "dec" -> DecOk
        [] E.e = "enc" -> EncOk
        [] E.e = "lock" -> LockOk
        [] E.e = "huge" -> HugeOk
        [] E.e = "inv" -> InvOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
