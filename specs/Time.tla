--------------------------------- MODULE Time ---------------------------------
(* GPS time: a week number and a time of week counted in ticks, WK ticks to the *)
(* week.  An instant is <<week, ticks>>; week UNK means the week is not known.  *)
(* All operators work on instants whose ticks need not be normalised.          *)
EXTENDS Integers
CONSTANT WK
UNK == -1
Norm(wn, k) == <<wn + (k \div WK), k % WK>>
IsNorm(t) == t[2] >= 0 /\ t[2] < WK
Valid(t) == t[1] >= 0 /\ IsNorm(t)
\* normalising: an unknown week stays unknown, only the time of week wraps
Normalise(t) == IF t[1] = UNK THEN <<UNK, t[2] % WK>> ELSE Norm(t[1], t[2])
NormaliseOk(t) == t[1] = UNK \/ (t[1] > UNK /\ Norm(t[1], t[2])[1] >= 0)
Add(t, k) == Norm(t[1], t[2] + k)
\* of a difference of times of week, the representative within half a week
Half == WK \div 2
Near(d) == IF d > Half THEN d - WK ELSE IF d < -Half THEN d + WK ELSE d
\* differences are canonical pairs <<weeks, ticks>> with 0 <= ticks < WK
Diff(a, b) == IF a[1] = UNK \/ b[1] = UNK THEN Norm(0, Near(a[2] - b[2]))
              ELSE Norm(a[1] - b[1], a[2] - b[2])
IsNeg(d) == d[1] < 0
IsZero(d) == d = <<0, 0>>
LessEq(d, e) == \/ d[1] < e[1]
                \/ /\ d[1] = e[1]
                   /\ d[2] <= e[2]
Negate(d) == Norm(-d[1], -d[2])
\* the same difference with both parts of one sign
OneSign(d) == IF d[1] >= 0 \/ d[2] = 0 THEN d ELSE <<d[1] + 1, d[2] - WK>>
InRange(b, e, t) == LET s == Diff(t, b) IN ~IsNeg(s) /\ LessEq(s, Diff(e, b))
\* filling in an unknown week from a reference
Match(t, ref) == IF ref[1] = UNK THEN t
                 ELSE LET d == t[2] - ref[2]
                      IN <<IF d > Half THEN ref[1] - 1
                           ELSE IF d < -Half THEN ref[1] + 1 ELSE ref[1], t[2]>>
MatchOk(t, ref) == ref[1] = UNK \/ Valid(Match(t, ref))
\* epochs every p ticks from the start of the week (p divides WK)
Floors(t, p) == {Normalise(<<t[1], t[2] - (t[2] % p)>>)}
Rounds(t, p) == LET r == t[2] % p
                IN (IF 2 * r <= p THEN {Normalise(<<t[1], t[2] - r>>)} ELSE {})
                   \cup (IF 2 * r >= p THEN {Normalise(<<t[1], t[2] - r + p>>)} ELSE {})
===============================================================================
