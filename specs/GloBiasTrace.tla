----------------------------- MODULE GloBiasTrace ------------------------------
EXTENDS GloBias, Tr
VARIABLE l
E == Trace[l]
\* one code, one set of biases, masks 0..255
BiasOk == LET b == [l1of |-> E.b[1], l1p |-> E.b[2], l2of |-> E.b[3], l2p |-> E.b[4]] IN
          \A m \in 0..255 : E.r[m + 1] = Correction(E.c, m, b)
FlagOk == \A m \in 0..255 : E.r[m + 1] = Bool(FlagSet(m, E.f))
Ok == CASE E.e = "bias" -> BiasOk
        [] E.e = "flag" -> FlagOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
