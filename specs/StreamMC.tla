------------------------------- MODULE StreamMC -------------------------------
(* Cursor machine over a small word size with a wrapping machine word: the      *)
(* guarded check (subtractions only) never wraps and decides exactly the        *)
(* mathematical containment.                                                   *)
EXTENDS Integers, TLC
CONSTANT M                     \* machine words are 0..M-1
VARIABLES len, off
W == 0..(M - 1)
Init == len \in W /\ off = 0
Remove(n) == off + n < M /\ off' = off + n /\ UNCHANGED len
Next == \E n \in W : Remove(n)
Refused(pos, n) == off > len \/ pos > len - off \/ n > len - off - pos
Contained(pos, n) == off + pos + n <= len
Exact == \A pos \in W, n \in W : Refused(pos, n) = ~Contained(pos, n)
\* the sum in machine arithmetic, for comparison: it accepts ranges outside
NoUnderflow == \A pos \in W : off <= len => (len - off >= 0 /\ (pos <= len - off => len - off - pos >= 0))
===============================================================================
