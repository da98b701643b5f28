------------------------------- MODULE CrcTrace -------------------------------
EXTENDS Crc, Tr
VARIABLE l
E == Trace[l]
\* computing in pieces equals computing at once: parts are recorded one after another
TabOk == \A x \in 0..255 : E.r[x + 1] = CrcBytes(<<x>>, E.crc)
BytesOk == /\ E.r = CrcBytes(E.b, E.crc) /\ E.pc = E.r
BitsOk == E.r = CrcBits(E.b, E.n, E.crc, E.inv = 1)
Ok == CASE E.e = "tab" -> TabOk
        [] E.e = "bytes" -> BytesOk
        [] E.e = "bits" -> BitsOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
