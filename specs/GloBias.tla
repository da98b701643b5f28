-------------------------------- MODULE GloBias -------------------------------
(* GLONASS code-phase biases: which broadcast bias corrects which signal.       *)
EXTENDS Signals
Bit(x, i) == (x \div (2 ^ i)) % 2
\* RTCM 1230 signal mask bits
MaskBit == [l2p |-> 0, l2of |-> 1, l1p |-> 2, l1of |-> 3]
Has(mask, s) == Bit(mask, MaskBit[s]) = 1
\* the open signals can be served, from the open signal's own bias by preference
Sources(c) == CASE c = 3 -> <<"l1of", "l1p">> [] c = 4 -> <<"l2of", "l2p">> [] OTHER -> <<>>
Correction(c, mask, b) ==
  LET s == SelectSeq(Sources(c), LAMBDA x : Has(mask, x)) IN IF s = <<>> THEN 0 ELSE -b[s[1]]
\* a flag of several bits is set when all of them are
FlagSet(m, f) == \A i \in 0..7 : Bit(f, i) = 1 => Bit(m, i) = 1
===============================================================================
