-------------------------------- MODULE TimeMC --------------------------------
(* A clock with a short week, moved by every amount: the arithmetic agrees with *)
(* plain integers, and the choices made for unknown weeks are the nearest ones. *)
EXTENDS Time
VARIABLES t, u, d
Ks == (-2 * WK)..(3 * WK)
Init == t \in (4..6) \X (0..(WK - 1)) /\ u \in (2..5) \X (0..(WK - 1)) /\ d = 0
Next == \E k \in Ks : d' = k /\ t' = Add(t, k) /\ UNCHANGED u /\ d = 0
Lin(x) == x[1] * WK + x[2]
Abs(x) == IF x < 0 THEN -x ELSE x
Normal == IsNorm(t)
Exact == Lin(Diff(t, u)) = Lin(t) - Lin(u)
AddDiff == d = 0 => \A k \in Ks : Lin(Diff(Add(t, k), t)) = k /\ IsNorm(Add(t, k))
Anti == Negate(Diff(t, u)) = Diff(u, t)
Order == IsNeg(Diff(t, u)) <=> Lin(t) < Lin(u)
Signs == LET s == OneSign(Diff(t, u))
         IN Lin(s) = Lin(t) - Lin(u) /\ Abs(s[2]) < WK /\ s[1] * s[2] >= 0
Range == \A b, e \in (2..4) \X {0, 1, WK - 1} :
           InRange(b, e, u) <=> (Lin(b) <= Lin(u) /\ Lin(u) <= Lin(e))
NearestWeek == LET m == Match(<<UNK, t[2]>>, u)
               IN Valid(t) => /\ 2 * Abs(Lin(m) - Lin(u)) <= WK
                  /\ \A w \in -1..12 : Abs(Lin(m) - Lin(u)) <= Abs(w * WK + t[2] - Lin(u))
                  /\ Lin(Diff(<<UNK, t[2]>>, u)) = Lin(m) - Lin(u)
KeepUnknown == Normalise(<<UNK, t[2] + WK>>) = <<UNK, t[2]>>
Rounding == \A p \in {q \in 1..WK : WK % q = 0} : Valid(t) =>
   /\ \A f \in Floors(t, p) : /\ Lin(f) <= Lin(t)
                              /\ Lin(t) - Lin(f) < p
                              /\ f[2] % p = 0
   /\ \A f \in Rounds(t, p) : /\ 2 * Abs(Lin(t) - Lin(f)) <= p
                              /\ f[2] % p = 0
                              /\ IsNorm(f)
   /\ Rounds(t, p) # {}
===============================================================================
