-------------------------------- MODULE SidSet --------------------------------
(* A set of signals <<code, satellite>>.                                       *)
EXTENDS Signals
VARIABLE S
SInit == S = {}
Clear == S' = {}
Add(x) == S' = S \cup {x}
Del(x) == S' = S \ {x}
SigCount == Cardinality(S)
\* several signals of one satellite count once
SatCount == Cardinality({<<Cons(x[1]), x[2]>> : x \in S})
===============================================================================
