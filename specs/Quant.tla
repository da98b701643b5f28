--------------------------------- MODULE Quant --------------------------------
(* Quantised accuracies and lock times.                                         *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- accuracy index: IS-GPS-200 20.3.3.3.1.3, in tenths of a metre -------------
Ura == <<20, 28, 40, 57, 80, 113, 160, 320, 640, 1280, 2560, 5120, 10240, 20480, 40960, 61440>>
NoIndex == 255
NoAccuracy == -10
UraOf(i) == IF i \in 0..15 THEN Ura[i + 1] ELSE NoAccuracy
\* an accuracy is n tenths of a metre, or just above (s = 1) or below (s = -1) it
Above(n, s, v) == n > v \/ (n = v /\ s > 0)
\* smallest index whose value is not below the accuracy
IndexOf(n, s) ==
  IF n < 0 \/ (n = 0 /\ s < 0) THEN NoIndex
  ELSE LET ok == {i \in 0..15 : ~Above(n, s, Ura[i + 1])}
       IN IF ok = {} THEN NoIndex ELSE CHOOSE i \in ok : \A j \in ok : i <= j
\* BeiDou: the same values for indices 0..14, index 15 means no accuracy
BdsUraOf(i) == IF i \in 0..14 THEN Ura[i + 1] ELSE NoAccuracy
\* Galileo signal in space accuracy, centimetres: four linear segments
SisaOf(i) == IF i \in 0..49 THEN i
             ELSE IF i \in 50..74 THEN 50 + (i - 50) * 2
             ELSE IF i \in 75..99 THEN 100 + (i - 75) * 4
             ELSE IF i \in 100..125 THEN 200 + (i - 100) * 16
             ELSE IF i \in 126..254 THEN 600   \* spare
             ELSE -100
\* ---- lock time indicator DF402, milliseconds -----------------------------------
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LockMin(i) == LET k == i % 16 IN IF k = 0 THEN 0 ELSE Pow2(k + 4)
\* largest indicator whose minimum has been reached
LockCode(ms) == CHOOSE i \in 0..15 : /\ LockMin(i) <= ms
                                     /\ i = 15 \/ ms < LockMin(i + 1)
===============================================================================
