-------------------------------- MODULE HealthMC -------------------------------
EXTENDS Health
VARIABLES w, c
Init == w \in 0..255 /\ c \in Codes
Next == UNCHANGED <<w, c>>
\* a signal nothing is said against is usable, whatever the word's other bits
Clean == (w % 32 = 0 /\ ~SummaryBad(w)) => WordOk(w, c)
\* weak, dead and without data mean the same to a signal
SameForConditions ==
  LET h == w % 32 IN h \in 1..27 =>
    LET first == h - ((h - 1) % 3) IN WordOk((w - h) + first, c) = WordOk(w, c)
\* a problem with fewer components never harms more signals
Monotone == \A v \in 4..27 : LET h == w % 32 IN
  (h \in 4..27 /\ Struck(v) \subseteq Struck(h) /\ WordOk((w - h) + h, c)) => WordOk((w - h) + v, c)
\* components of one band only: trouble on L1 leaves L2 alone and conversely
Bands == LET h == w % 32 IN
  /\ (Struck(h) # {} /\ Struck(h) \subseteq {"L1P", "L1C"} /\ Component(c) \in {"L2P", "L2C"}) => WordOk(w, c)
  /\ (Struck(h) # {} /\ Struck(h) \subseteq {"L2P", "L2C"} /\ Component(c) \in {"L1P", "L1C"} /\ ~SummaryBad(w)) => WordOk(w, c)
\* the eight-bit word is the stricter one; ignoring causes only makes it laxer
Stricter == /\ PageWordOk(w, c) => WordOk(w, c)
            /\ \A i \in 0..7 : NavDataOk(w, 0) => NavDataOk(w, 2 ^ i)
            /\ (PageWordOk(w, c) => AlmanacHealthy(w, c))
            /\ (AlmanacHealthy(w, c) => Indication(w) \in {0, 2, 3, 4})
\* all ones marks a satellite that is not available
Ones == (w % 64 = 63) => ~Page25Ok(w, c)
===============================================================================
