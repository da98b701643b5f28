-------------------------------- MODULE GalNavMC -------------------------------
EXTENDS GalNav, TLC
Zeros == [i \in 1..128 |-> 0]
Blank == <<Zeros, Zeros, Zeros, Zeros, Zeros>>
All == EphFields \cup AuxFields
VARIABLE f
Init == f \in All
Next == UNCHANGED f
Inside == \A q \in Places(f) : q[1] \in 1..5 /\ q[2] \in 7..128
Apart == \A g \in All : g.n # f.n => Places(f) \cap Places(g) = {}
Alone == Independent(f, All, Blank)
\* words 1 to 4 start with type and issue of data and end with at most two reserved bits
Used == UNION {Places(g) : g \in All}
Covered == \A w \in 1..4 : \A q \in 17..126 : <<w, q>> \in Used
Monotone == \A i \in 0..124 : SisaCm(i) < SisaCm(i + 1) /\ SisaCm(126) = 600
===============================================================================
