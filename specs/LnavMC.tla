--------------------------------- MODULE LnavMC --------------------------------
EXTENDS Lnav, TLC
Zeros == [i \in 1..300 |-> 0]
Blank == <<Zeros, Zeros, Zeros>>
HealthFields == {[HealthF(sv) EXCEPT !.n = ToString(sv)] : sv \in 25..32}
Health5Fields == {[HealthF(sv) EXCEPT !.n = ToString(sv)] : sv \in 1..24}
Books == [eph |-> EphFields \cup AuxFields,
        iono |-> IonoFields \cup {DataIdF, PageF} \cup UtcFields \cup UtcAux,
        alm |-> AlmFields \cup {DataIdF, PageF},
        ref |-> {WnaF, ToaF, DataIdF, PageF} \cup Health5Fields,
        health |-> HealthFields \cup {DataIdF, PageF}]
\* the a0/a1 names of the two halves of page 18 differ only by their half
Key(k) == IF k = "iono" THEN {[f EXCEPT !.n = ToString(f.p)] : f \in Books[k]} ELSE Books[k]
VARIABLES k, f
Init == k \in DOMAIN Books /\ f \in Key(k)
Next == UNCHANGED <<k, f>>
DataBitsOnly == \A q \in Places(f) : q[1] \in 1..3 /\ q[2] \in 61..300 /\ ((q[2] - 1) % 30) < 24
Apart == \A g \in Key(k) : g.n # f.n => Places(f) \cap Places(g) = {}
Alone == Independent(f, Key(k), Blank)
\* derived values
FitTotal == \A i \in 0..1023 : FitHours(0, i) = 4 /\ FitHours(1, i) \in {6, 8, 14, 26, 50, 74, 98}
MulOk == \A r \in {-8388608, -4097, -5, 0, 7, 4096, 8388607} : \A n \in {-250, -10, 0, 3, 250} :
           ((r * n) \div 8388608) - Mul20(r, n) \in 0..2
===============================================================================
