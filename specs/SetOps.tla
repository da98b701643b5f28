-------------------------------- MODULE SetOps --------------------------------
(* Sorted arrays as sets.  Elements are integers (their rank under the caller's *)
(* comparison); an array is a sequence, a set is a strictly increasing array.  *)
EXTENDS Integers, Sequences, FiniteSets
IsSet(a) == \A i \in 1..(Len(a) - 1) : a[i] < a[i + 1]
\* number of elements before the first that is not smaller than k
InsPos(a, k) == LET P == {i \in 1..Len(a) : a[i] >= k}
                IN IF P = {} THEN Len(a) ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 1
Insert(a, k) == LET p == InsPos(a, k) IN SubSeq(a, 1, p) \o <<k>> \o SubSeq(a, p + 1, Len(a))
RemPos(a, k) == LET p == InsPos(a, k) IN IF Len(a) = 0 THEN 0 ELSE IF p = Len(a) THEN p - 1 ELSE p
Remove(a, k) == LET p == RemPos(a, k) IN SubSeq(a, 1, p) \o SubSeq(a, p + 2, Len(a))
\* pairs <<i, j>> of equal elements in ascending order
RECURSIVE Merge(_, _, _, _, _)
Merge(a, b, i, j, out) ==
  IF i > Len(a) \/ j > Len(b) THEN out
  ELSE IF a[i] < b[j] THEN Merge(a, b, i + 1, j, out)
  ELSE IF b[j] < a[i] THEN Merge(a, b, i, j + 1, out)
  ELSE Merge(a, b, i + 1, j + 1, Append(out, <<i, j>>))
Pairs(a, b) == Merge(a, b, 1, 1, <<>>)
===============================================================================
