-------------------------------- MODULE GloNavMC -------------------------------
EXTENDS GloNav, TLC
Blank == <<[i \in 1..85 |-> 0]>>
VARIABLES k, f, a, b
\* catalogue entries, and pairs of errors a <= b (a = b: one error)
Init == \/ k \in 1..5 /\ f \in FieldsOf(k) /\ a = 0 /\ b = 0
        \/ k = 0 /\ f = NumberF /\ a \in 1..85 /\ b \in a..85
Next == UNCHANGED <<k, f, a, b>>
Apart == k > 0 => /\ \A g \in FieldsOf(k) : g.n # f.n => Places(f) \cap Places(g) = {}
                  /\ \A q \in Places(f) : q[2] \in 2..77          \* data bits only
Alone == k > 0 => Independent(f, FieldsOf(k), Blank)
\* what the code promises, on the clean word (the code is linear)
Codes == k = 0 =>
  LET c == IF a = b THEN Number[a] ELSE Number[a] ^^ Number[b] t == IF a = b THEN 1 ELSE 0
      v == Verdict(c, t)
  IN IF a # b THEN v = -1
     ELSE IF a > 8 THEN v = a ELSE IF a < 8 THEN v = 0 ELSE v = -1
\* the syndrome is the seven check sums of the interface specification
Sums == k = 0 => LET s == [i \in 1..85 |-> IF i \in {86 - a, 86 - b} THEN 1 ELSE 0] c == Syndrome(s)
                 IN /\ \A i \in 1..7 : Digit(c, i) = SumOf(s, i)
                    /\ c = IF a = b THEN Number[a] ELSE Number[a] ^^ Number[b]
===============================================================================
