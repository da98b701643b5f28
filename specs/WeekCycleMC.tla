------------------------------ MODULE WeekCycleMC ------------------------------
(* A receiver whose true week advances and which only sees it truncated: while  *)
(* the true week is within one cycle of the reference, it is recovered exactly. *)
EXTENDS WeekCycle
CONSTANT M
VARIABLES wk, ref
Init == ref \in 0..(3 * M) /\ wk = ref
Next == wk < ref + M + 2 /\ wk' = wk + 1 /\ UNCHANGED ref
Least == LET r == Resolve(wk % M, ref, M)
         IN wk % M < ref => /\ r >= ref /\ r % M = wk % M
                            /\ \A x \in ref..(r - 1) : x % M # wk % M
Recovered == wk < ref + M => Resolve(wk % M, ref, M) = (IF wk % M >= ref THEN wk % M ELSE wk)
Complete == wk >= ref => Resolve(wk, ref, M) = wk
===============================================================================
