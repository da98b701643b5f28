------------------------------- MODULE Signals --------------------------------
(* The signal catalogue: every code, its constellation, satellite range and    *)
(* published band plan, and the identifiers derived from it.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONS == <<"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL">>
ConsNum(c) == (CHOOSE i \in 1..6 : CONS[i] = c) - 1
FirstSat == [GPS |-> 1, SBAS |-> 120, GLO |-> 1, BDS |-> 1, QZS |-> 193, GAL |-> 1]
NumSats  == [GPS |-> 32, SBAS |-> 19, GLO |-> 28, BDS |-> 64, QZS |-> 10, GAL |-> 36]
\* c constellation, hz carrier, sig signals per code, chips/rate/prn ranging code,
\* acq direct acquisition, dop largest satellite Doppler (Hz, rounded),
\* ph phase alignment in quarter cycles, dec carries data
CodeTable == <<
  [c |-> "GPS", name |-> "GPS L1CA", hz |-> 1575420000, sig |-> 32, chips |-> 1023, rate |-> 1023000, acq |-> 1, prn |-> 1, dop |-> 4200, ph |-> 0, dec |-> 1], \* 0
  [c |-> "GPS", name |-> "GPS L2CM", hz |-> 1227600000, sig |-> 32, chips |-> 20460, rate |-> 1023000, acq |-> 0, prn |-> 20, dop |-> 3273, ph |-> -1, dec |-> 1], \* 1
  [c |-> "SBAS", name |-> "SBAS L1", hz |-> 1575420000, sig |-> 19, chips |-> 1023, rate |-> 1023000, acq |-> 1, prn |-> 1, dop |-> 210, ph |-> 0, dec |-> 1], \* 2
  [c |-> "GLO", name |-> "GLO L1OF", hz |-> 1602000000, sig |-> 14, chips |-> 511, rate |-> 511000, acq |-> 1, prn |-> 1, dop |-> 4820, ph |-> 0, dec |-> 1], \* 3
  [c |-> "GLO", name |-> "GLO L2OF", hz |-> 1246000000, sig |-> 14, chips |-> 511, rate |-> 511000, acq |-> 0, prn |-> 1, dop |-> 3749, ph |-> 0, dec |-> 1], \* 4
  [c |-> "GPS", name |-> "GPS L1P", hz |-> 1575420000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 1, dec |-> 0], \* 5
  [c |-> "GPS", name |-> "GPS L2P", hz |-> 1227600000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3273, ph |-> 0, dec |-> 0], \* 6
  [c |-> "GPS", name |-> "GPS L2CL", hz |-> 1227600000, sig |-> 32, chips |-> 1534500, rate |-> 1023000, acq |-> 0, prn |-> 1500, dop |-> 3273, ph |-> -1, dec |-> 0], \* 7
  [c |-> "GPS", name |-> "GPS L2C", hz |-> 1227600000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3273, ph |-> -1, dec |-> 0], \* 8
  [c |-> "GPS", name |-> "GPS L5I", hz |-> 1176450000, sig |-> 32, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3136, ph |-> 0, dec |-> 0], \* 9
  [c |-> "GPS", name |-> "GPS L5Q", hz |-> 1176450000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3136, ph |-> -1, dec |-> 0], \* 10
  [c |-> "GPS", name |-> "GPS L5", hz |-> 1176450000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3136, ph |-> 0, dec |-> 0], \* 11
  [c |-> "BDS", name |-> "BDS B1", hz |-> 1561098000, sig |-> 64, chips |-> 2046, rate |-> 2046000, acq |-> 1, prn |-> 1, dop |-> 4200, ph |-> 0, dec |-> 1], \* 12
  [c |-> "BDS", name |-> "BDS B2", hz |-> 1207140000, sig |-> 64, chips |-> 2046, rate |-> 2046000, acq |-> 0, prn |-> 1, dop |-> 3248, ph |-> 0, dec |-> 1], \* 13
  [c |-> "GAL", name |-> "GAL E1B", hz |-> 1575420000, sig |-> 36, chips |-> 4092, rate |-> 1023000, acq |-> 1, prn |-> 4, dop |-> 4000, ph |-> 0, dec |-> 1], \* 14
  [c |-> "GAL", name |-> "GAL E1C", hz |-> 1575420000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4000, ph |-> 2, dec |-> 0], \* 15
  [c |-> "GAL", name |-> "GAL E1", hz |-> 1575420000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4000, ph |-> 0, dec |-> 0], \* 16
  [c |-> "GAL", name |-> "GAL E6B", hz |-> 1278750000, sig |-> 36, chips |-> 5115, rate |-> 5115000, acq |-> 0, prn |-> 1, dop |-> 3247, ph |-> 0, dec |-> 1], \* 17
  [c |-> "GAL", name |-> "GAL E6C", hz |-> 1278750000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3247, ph |-> -2, dec |-> 0], \* 18
  [c |-> "GAL", name |-> "GAL E6", hz |-> 1278750000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3247, ph |-> 0, dec |-> 0], \* 19
  [c |-> "GAL", name |-> "GAL E5bI", hz |-> 1207140000, sig |-> 36, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3065, ph |-> 0, dec |-> 1], \* 20
  [c |-> "GAL", name |-> "GAL E5bQ", hz |-> 1207140000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3065, ph |-> -1, dec |-> 0], \* 21
  [c |-> "GAL", name |-> "GAL E5b", hz |-> 1207140000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3065, ph |-> 0, dec |-> 0], \* 22
  [c |-> "GAL", name |-> "GAL E8I", hz |-> 1191795000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3026, ph |-> 0, dec |-> 0], \* 23
  [c |-> "GAL", name |-> "GAL E8Q", hz |-> 1191795000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3026, ph |-> -1, dec |-> 0], \* 24
  [c |-> "GAL", name |-> "GAL E8", hz |-> 1191795000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3026, ph |-> 0, dec |-> 0], \* 25
  [c |-> "GAL", name |-> "GAL E5aI", hz |-> 1176450000, sig |-> 36, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 2987, ph |-> 0, dec |-> 1], \* 26
  [c |-> "GAL", name |-> "GAL E5aQ", hz |-> 1176450000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 2987, ph |-> -1, dec |-> 0], \* 27
  [c |-> "GAL", name |-> "GAL E5a", hz |-> 1176450000, sig |-> 36, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 2987, ph |-> 0, dec |-> 0], \* 28
  [c |-> "GLO", name |-> "GLO L1P", hz |-> 1602000000, sig |-> 14, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4820, ph |-> 1, dec |-> 0], \* 29
  [c |-> "GLO", name |-> "GLO L2P", hz |-> 1246000000, sig |-> 14, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3749, ph |-> 1, dec |-> 0], \* 30
  [c |-> "QZS", name |-> "QZS L1CA", hz |-> 1575420000, sig |-> 10, chips |-> 1023, rate |-> 1023000, acq |-> 1, prn |-> 1, dop |-> 1200, ph |-> 0, dec |-> 1], \* 31
  [c |-> "QZS", name |-> "QZS L1CI", hz |-> 1575420000, sig |-> 10, chips |-> 10230, rate |-> 1023000, acq |-> 0, prn |-> 10, dop |-> 4200, ph |-> 0, dec |-> 0], \* 32
  [c |-> "QZS", name |-> "QZS L1CQ", hz |-> 1575420000, sig |-> 10, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 1, dec |-> 0], \* 33
  [c |-> "QZS", name |-> "QZS L1CX", hz |-> 1575420000, sig |-> 10, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 1, dec |-> 0], \* 34
  [c |-> "QZS", name |-> "QZS L2CM", hz |-> 1227600000, sig |-> 10, chips |-> 20460, rate |-> 1023000, acq |-> 0, prn |-> 20, dop |-> 935, ph |-> 0, dec |-> 0], \* 35
  [c |-> "QZS", name |-> "QZS L2CL", hz |-> 1227600000, sig |-> 10, chips |-> 1534500, rate |-> 1023000, acq |-> 0, prn |-> 1500, dop |-> 935, ph |-> 0, dec |-> 0], \* 36
  [c |-> "QZS", name |-> "QZS L2C", hz |-> 1227600000, sig |-> 10, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 935, ph |-> 0, dec |-> 0], \* 37
  [c |-> "QZS", name |-> "QZS L5I", hz |-> 1176450000, sig |-> 10, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 896, ph |-> 0, dec |-> 0], \* 38
  [c |-> "QZS", name |-> "QZS L5Q", hz |-> 1176450000, sig |-> 10, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 896, ph |-> -1, dec |-> 0], \* 39
  [c |-> "QZS", name |-> "QZS L5", hz |-> 1176450000, sig |-> 10, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 896, ph |-> 0, dec |-> 0], \* 40
  [c |-> "SBAS", name |-> "SBAS L5I", hz |-> 1176450000, sig |-> 19, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 157, ph |-> 0, dec |-> 1], \* 41
  [c |-> "SBAS", name |-> "SBAS L5Q", hz |-> 1176450000, sig |-> 19, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 157, ph |-> -1, dec |-> 0], \* 42
  [c |-> "SBAS", name |-> "SBAS L5", hz |-> 1176450000, sig |-> 19, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 157, ph |-> 0, dec |-> 0], \* 43
  [c |-> "BDS", name |-> "BDS3 B1CI", hz |-> 1575420000, sig |-> 64, chips |-> 10230, rate |-> 1023000, acq |-> 0, prn |-> 10, dop |-> 4200, ph |-> 0, dec |-> 0], \* 44
  [c |-> "BDS", name |-> "BDS3 B1CQ", hz |-> 1575420000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 0, dec |-> 0], \* 45
  [c |-> "BDS", name |-> "BDS3 B1C", hz |-> 1575420000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 0, dec |-> 0], \* 46
  [c |-> "BDS", name |-> "BDS3 B5I", hz |-> 1176450000, sig |-> 64, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3165, ph |-> 0, dec |-> 0], \* 47
  [c |-> "BDS", name |-> "BDS3 B5Q", hz |-> 1176450000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3165, ph |-> 0, dec |-> 0], \* 48
  [c |-> "BDS", name |-> "BDS3 B5", hz |-> 1176450000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3165, ph |-> 0, dec |-> 0], \* 49
  [c |-> "BDS", name |-> "BDS3 B7I", hz |-> 1207140000, sig |-> 64, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3248, ph |-> 0, dec |-> 0], \* 50
  [c |-> "BDS", name |-> "BDS3 B7Q", hz |-> 1207140000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3248, ph |-> -1, dec |-> 0], \* 51
  [c |-> "BDS", name |-> "BDS3 B7", hz |-> 1207140000, sig |-> 64, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3248, ph |-> 0, dec |-> 0], \* 52
  [c |-> "BDS", name |-> "BDS3 B3I", hz |-> 1268520000, sig |-> 64, chips |-> 10230, rate |-> 10230000, acq |-> 0, prn |-> 1, dop |-> 3413, ph |-> 0, dec |-> 0], \* 53
  [c |-> "BDS", name |-> "BDS3 B3Q", hz |-> 1268520000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3413, ph |-> -1, dec |-> 0], \* 54
  [c |-> "BDS", name |-> "BDS3 B3", hz |-> 1268520000, sig |-> 64, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 3413, ph |-> 0, dec |-> 0], \* 55
  [c |-> "GPS", name |-> "GPS L1CI", hz |-> 1575420000, sig |-> 32, chips |-> 10230, rate |-> 1023000, acq |-> 0, prn |-> 10, dop |-> 4200, ph |-> 1, dec |-> 0], \* 56
  [c |-> "GPS", name |-> "GPS L1CQ", hz |-> 1575420000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 1, dec |-> 0], \* 57
  [c |-> "GPS", name |-> "GPS L1C", hz |-> 1575420000, sig |-> 32, chips |-> 0, rate |-> 0, acq |-> 0, prn |-> 0, dop |-> 4200, ph |-> 1, dec |-> 0], \* 58
  [c |-> "GPS", name |-> "GPS AUX", hz |-> 1575420000, sig |-> 32, chips |-> 1023, rate |-> 1023000, acq |-> 0, prn |-> 1, dop |-> 4200, ph |-> 0, dec |-> 0], \* 59
  [c |-> "SBAS", name |-> "SBAS AUX", hz |-> 1575420000, sig |-> 19, chips |-> 1023, rate |-> 1023000, acq |-> 0, prn |-> 1, dop |-> 210, ph |-> 0, dec |-> 0], \* 60
  [c |-> "GAL", name |-> "GAL AUX", hz |-> 1575420000, sig |-> 36, chips |-> 4092, rate |-> 1023000, acq |-> 0, prn |-> 4, dop |-> 4000, ph |-> 0, dec |-> 0], \* 61
  [c |-> "QZS", name |-> "QZS AUX", hz |-> 1575420000, sig |-> 10, chips |-> 1023, rate |-> 1023000, acq |-> 0, prn |-> 1, dop |-> 1200, ph |-> 0, dec |-> 0], \* 62
  [c |-> "BDS", name |-> "BDS AUX", hz |-> 1561098000, sig |-> 64, chips |-> 2046, rate |-> 2046000, acq |-> 0, prn |-> 1, dop |-> 4200, ph |-> 0, dec |-> 0] \* 63
  >>
NCODES == Len(CodeTable)
Codes == 0..(NCODES - 1)
Code(c) == CodeTable[c + 1]
ValidCode(c) == c \in Codes
Cons(c) == Code(c).c
First(c) == FirstSat[Cons(c)]
Count(c) == NumSats[Cons(c)]
ValidSid(c, s) == ValidCode(c) /\ s >= First(c) /\ s < First(c) + Count(c)
Index(c, s) == s - First(c)
\* total order: constellation, then code, then satellite
SidKey(c, s) == <<ConsNum(Cons(c)), c, s>>
SidLess(a, b) == LET x == SidKey(a[1], a[2]) y == SidKey(b[1], b[2])
                 IN \/ x[1] < y[1]
                    \/ x[1] = y[1] /\ x[2] < y[2]
                    \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
L1Code == [GPS |-> 0, SBAS |-> 2, GLO |-> 3, BDS |-> 12, QZS |-> 31, GAL |-> 14]
L5Code == [GPS |-> 9, SBAS |-> -1, GLO |-> -1, BDS |-> 47, QZS |-> 38, GAL |-> 26]
SubCons == <<"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL">>
SubToCons == [GPS |-> "GPS", SBAS |-> "SBAS", GLO |-> "GLO", BDS2 |-> "BDS", BDS3 |-> "BDS",
              QZS |-> "QZS", GAL |-> "GAL"]
ConsChar == [GPS |-> "G", SBAS |-> "S", GLO |-> "R", BDS |-> "C", QZS |-> "J", GAL |-> "E"]
SbasSystems == <<{131, 133, 138}, {123, 126, 136}, {127, 128}, {129, 137}>>
SbasSystem(prn) == IF \E i \in 1..4 : prn \in SbasSystems[i]
                   THEN (CHOOSE i \in 1..4 : prn \in SbasSystems[i]) - 1 ELSE -1
\* FDMA: channel numbers 1..14 stand for frequency offsets -7..6
GloStep(c) == IF c = 3 THEN 562500 ELSE IF c = 4 THEN 437500 ELSE 0
CarrierHz(c, fcn) == Code(c).hz + (IF c \in {3, 4} THEN (fcn - 8) * GloStep(c) ELSE 0)
===============================================================================
