-------------------------------- MODULE TgdMC ---------------------------------
EXTENDS Tgd
VARIABLE c
Init == c \in Codes
Next == UNCHANGED c
\* every scaled signal has a frequency of the 5.115 MHz grid
OnGrid == Code(c).c \in {"GPS", "QZS", "GAL"} => IsFifth(Code(c).hz)
\* the delay of the reference frequency itself is not scaled
Reference == (Code(c).c \in {"GPS", "QZS", "GAL"} /\ Fifth(Code(c).hz) = L1) => Term(c)[2] = Term(c)[3]
\* signals of one frequency and constellation (and broadcast delay) share it;
\* BeiDou B1C data is served from B1I
SameFrequency == \A d \in Codes :
  (Code(c).c = Code(d).c /\ Code(c).hz = Code(d).hz /\ Code(c).c # "BDS") => Term(c) = Term(d)
\* the lower the frequency the larger the factor
Grows == (Code(c).c \in {"GPS", "QZS", "GAL"}) => Term(c)[2] >= Term(c)[3]
Served == Term(c) = <<>> <=> Code(c).c = "SBAS"
===============================================================================
