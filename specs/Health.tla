-------------------------------- MODULE Health --------------------------------
(* Satellite health words: IS-GPS-200 tables 20-VII and 20-VIII, and the health *)
(* fields of the other constellations.                                          *)
EXTENDS Signals
Bit(x, i) == (x \div (2 ^ i)) % 2
\* ---- NAV data health indications: the three most significant bits of a word ----
Indication(w) == (w \div 32) % 8
\* 0 all data good; otherwise a cause that may be on the list of causes to ignore
NavDataOk(w, ignored) == Indication(w) = 0 \/ Bit(ignored, Indication(w)) = 1
\* ---- table 20-VIII: five least significant bits --------------------------------
Conditions == <<"weak", "dead", "nodata">>
\* each group of three codes from 4 on names the components it strikes
Groups == <<{"L1P"}, {"L2P"}, {"L1C"}, {"L2C"}, {"L1P", "L2P"}, {"L1C", "L2C"},
            {"L1P", "L1C"}, {"L2P", "L2C"}>>
\* codes that strike the satellite as a whole: all signals, temporarily out (now or
\* soon), only the accuracy is good, more than one problem
WholeSatellite == {1, 2, 3, 28, 29, 30, 31}
Struck(h) == IF h \in 4..27 THEN Groups[((h - 4) \div 3) + 1] ELSE {}
Condition(h) == IF h = 0 THEN "ok" ELSE IF h \in 1..27 THEN Conditions[((h - 1) % 3) + 1] ELSE "other"
\* the component a signal depends on; "none": the table has no word about it
Component(c) ==
  CASE c \in {0, 59, 31, 62} -> "L1C"                 \* GPS and QZSS C/A
    [] c \in {1, 7, 8, 35, 36, 37} -> "L2C"           \* GPS and QZSS L2C
    [] c = 5 -> "L1P"
    [] c = 6 -> "L2P"
    [] OTHER -> "none"
\* the summary of the NAV data (bit 6) counts for the signals that carry them
CarriesNav(c) == c \in {0, 59, 5}
SummaryBad(w) == Bit(w, 5) = 1
WordOk(w, c) == LET h == w % 32 IN
  /\ ~(CarriesNav(c) /\ SummaryBad(w))
  /\ h \notin WholeSatellite
  /\ Component(c) \notin Struck(h)
\* page word of eight bits: the indications have to be all clear as well
PageWordOk(w, c) == NavDataOk(w, 0) /\ WordOk(w, c)
\* page 25 word of six bits
Page25Ok(w, c) == WordOk(w, c)
\* health of an almanac: TLM/HOW, Z-count and subframe 1 to 3 causes do not matter
AlmanacIgnores == 2 ^ 2 + 2 ^ 3 + 2 ^ 4
AlmanacHealthy(w, c) == NavDataOk(w, AlmanacIgnores) /\ WordOk(w % 32, c)
\* health of an ephemeris; accuracies in tenths of a millimetre, negative: none.
\* A satellite not heard of is presumed healthy.
LargestUra == 61440000
EphHealthy(valid, w, ura, c) ==
  \/ valid = 0
  \/ CASE Cons(c) = "GPS" -> ura >= 0 /\ ura <= LargestUra /\ WordOk(w, c)
       [] Cons(c) \in {"GLO", "BDS", "GAL"} -> ura >= 0 /\ w = 0
       [] OTHER -> w = 0
\* six health bits of word 3 of subframe 1, of the 24 data bits of the word
Subframe1Health(w24) == w24 % 64
===============================================================================
