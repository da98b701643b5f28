------------------------------- MODULE SetOpsMC -------------------------------
(* The two-pointer merge taken step by step, checked against the mathematical   *)
(* intersection for every pair of sets over a small universe; insertion and     *)
(* removal checked against set union and difference.                            *)
EXTENDS SetOps, TLC
CONSTANT U
VARIABLES a, b, i, j, out
vars == <<a, b, i, j, out>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Range(s) == {s[k] : k \in DOMAIN s}
Sets == {Sorted(S) : S \in SUBSET (1..U)}
Init == a \in Sets /\ b \in Sets /\ i = 1 /\ j = 1 /\ out = <<>>
SkipA == i <= Len(a) /\ j <= Len(b) /\ a[i] < b[j] /\ i' = i + 1 /\ UNCHANGED <<a, b, j, out>>
SkipB == i <= Len(a) /\ j <= Len(b) /\ a[i] > b[j] /\ j' = j + 1 /\ UNCHANGED <<a, b, i, out>>
Match == i <= Len(a) /\ j <= Len(b) /\ a[i] = b[j] /\ out' = Append(out, <<i, j>>)
         /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<a, b>>
Next == SkipA \/ SkipB \/ Match
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i > Len(a) \/ j > Len(b)
Exact == Done => /\ {a[p[1]] : p \in Range(out)} = Range(a) \cap Range(b)
                 /\ Len(out) = Cardinality(Range(a) \cap Range(b))
                 /\ \A p \in Range(out) : a[p[1]] = b[p[2]]
                 /\ out = Pairs(a, b)
\* no common element is skipped at any intermediate point
Loop == {x \in Range(a) \cap Range(b) : (\E p \in Range(out) : a[p[1]] = x)
            \/ ((\E k \in i..Len(a) : a[k] = x) /\ (\E k \in j..Len(b) : b[k] = x))} = Range(a) \cap Range(b)
Edit == out = <<>> /\ b = <<>> => \A k \in 0..(U + 1) :
          /\ IsSet(a)
          /\ IsSet(Insert(a, k)) = (k \notin Range(a))
          /\ Range(Insert(a, k)) = Range(a) \cup {k} /\ Len(Insert(a, k)) = Len(a) + 1
          /\ InsPos(a, k) = Cardinality({x \in Range(a) : x < k})
          /\ k \in Range(a) => Range(Remove(a, k)) = Range(a) \ {k}
          /\ IsSet(Remove(a, k)) /\ (a # <<>> => Len(Remove(a, k)) = Len(a) - 1)
Ends == <>Done
===============================================================================
