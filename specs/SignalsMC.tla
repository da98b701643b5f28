------------------------------ MODULE SignalsMC -------------------------------
(* Internal consistency of the catalogue, stated from the published band plan: *)
(* checked over every code, satellite and pair of signals of a sample.         *)
EXTENDS Signals, TLC
VARIABLES a, b
Sids == {<<c, s>> \in Codes \X (0..210) : ValidSid(c, s)}
\* first, second and last satellite of every code
Sample == {x \in Sids : Index(x[1], x[2]) \in {0, 1, Count(x[1]) - 1}}
Init == a \in Sample /\ b \in Sample
Next == UNCHANGED <<a, b>>
F0 == 1023000
Multiples == [GPS |-> {1540, 1200, 1150}, SBAS |-> {1540, 1150}, GLO |-> {}, QZS |-> {1540, 1200, 1150},
              BDS |-> {1540, 1526, 1180, 1150, 1240}, GAL |-> {1540, 1250, 1180, 1165, 1150}]
BandPlan == \A c \in Codes : Cons(c) # "GLO" => \E m \in Multiples[Cons(c)] : Code(c).hz = m * F0
\* Doppler scales with the carrier; chips = rate * period
PrnPeriod == \A c \in Codes : Code(c).chips * 1000 = (Code(c).rate \div 1) * Code(c).prn
                \/ Code(c).chips = (Code(c).rate \div 1000) * Code(c).prn
NamesUnique == \A c, d \in Codes : Code(c).name = Code(d).name => c = d
SbasDisjoint == \A i, j \in 1..4 : i # j => SbasSystems[i] \cap SbasSystems[j] = {}
SbasInRange == \A i \in 1..4 : SbasSystems[i] \subseteq 120..138
TableOk == BandPlan /\ PrnPeriod /\ NamesUnique /\ SbasDisjoint /\ SbasInRange
           /\ \A k \in 1..6 : Cons(L1Code[CONS[k]]) = CONS[k] /\ (L5Code[CONS[k]] >= 0 => Cons(L5Code[CONS[k]]) = CONS[k])
ASSUME TableOk
Total == a # b => (SidLess(a, b) # SidLess(b, a))
Irrefl == ~SidLess(a, a)
Dense == Index(a[1], a[2]) \in 0..(Count(a[1]) - 1) /\ Count(a[1]) <= 64
===============================================================================
