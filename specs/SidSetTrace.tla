------------------------------ MODULE SidSetTrace -----------------------------
EXTENDS SidSet, Tr
VARIABLE l
E == Trace[l]
Elems(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
\* everything observable after the operation
Obs == /\ E.sig = Cardinality(S')
       /\ E.sat = Cardinality({<<Cons(x[1]), x[2]>> : x \in S'})
       /\ Elems(E.all) = S' /\ Len(E.all) = Cardinality(S')
TInit == l = 1 /\ SInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ CASE E.e = "init" -> Clear
              [] E.e = "load" -> S' = Elems(E.xs)
              [] E.e = "add" -> Add(<<E.c, E.s>>)
              [] E.e = "del" -> Del(<<E.c, E.s>>)
         /\ Obs
===============================================================================
