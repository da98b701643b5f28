------------------------------- MODULE SidSetMC -------------------------------
(* The bitmap representation refines the abstract set: one set of satellite    *)
(* indices per code, satellites counted per constellation by or-ing the codes  *)
(* of that constellation.                                                      *)
EXTENDS SidSet, TLC
VARIABLE bm
U == {<<0, 1>>, <<0, 32>>, <<1, 1>>, <<9, 32>>, <<14, 1>>, <<16, 36>>, <<12, 1>>, <<53, 64>>, <<2, 120>>, <<31, 193>>, <<3, 28>>}
UC == {x[1] : x \in U}
Init == SInit /\ bm = [c \in UC |-> {}]
AddB(x) == Add(x) /\ bm' = [bm EXCEPT ![x[1]] = @ \cup {Index(x[1], x[2])}]
DelB(x) == Del(x) /\ bm' = [bm EXCEPT ![x[1]] = @ \ {Index(x[1], x[2])}]
ClearB == Clear /\ bm' = [c \in UC |-> {}]
Next == ClearB \/ \E x \in U : AddB(x) \/ DelB(x)
Member == \A x \in U : (x \in S) = (Index(x[1], x[2]) \in bm[x[1]])
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + Sum(f, D \ {d})
Sigs == SigCount = Sum([c \in UC |-> Cardinality(bm[c])], UC)
Conss == {Cons(c) : c \in UC}
Sats == SatCount = Sum([k \in Conss |-> Cardinality(UNION {bm[c] : c \in {d \in UC : Cons(d) = k}})], Conss)
Bounds == SatCount <= SigCount /\ SigCount <= Cardinality(U)
===============================================================================
