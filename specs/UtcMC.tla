--------------------------------- MODULE UtcMC ---------------------------------
(* The clock runs through windows around every inserted second, the surrounding *)
(* days and year ends, in ticks of half a second, under the built-in history    *)
(* and under broadcast parameters.                                              *)
EXTENDS Utc
VARIABLES t, p, n
TableP == [use |-> 0, a0 |-> 0, lse |-> <<0, 0>>, ls |-> 0, lsf |-> 0]
\* parameters announcing an inserted second (or none) at the end of a day
MkP(d, ls, lsf, a0) == [use |-> 1, a0 |-> a0, lse |-> Later(AtDay(d + 1, 0), ls * TS + a0),
                        ls |-> ls, lsf |-> lsf]
Ps == {MkP(d, ls, lsf, a0) : d \in {58848, 60310}, ls \in {18, 3}, lsf \in {19, 4}, a0 \in {-1, 0, 1}}
      \cup {MkP(58848, 18, 18, a0) : a0 \in {0, 1}}
Good == {q \in Ps : q.lsf - q.ls \in {0, 1}}
WIN == 90
Back(x) == Later(x, -WIN)
Init == /\ n = 0
        /\ \/ p = TableP /\ t \in {Back(Starts[i]) : i \in 1..Len(LeapDays)}
                              \cup {Back(AtDay(d, 0)) : d \in {44245, 51604, 51605, 60369, 88127}}
           \/ p \in Good /\ t \in {Back(p.lse), Back(Later(p.lse, 86400 * TS))}
Next == n < 2 * WIN /\ n' = n + 1 /\ t' = Later(t, 1) /\ UNCHANGED p
LexLess(a, b) == \/ a[1] < b[1]
                 \/ /\ a[1] = b[1]
                    /\ a[2] < b[2]
Monotone == LexLess(UtcOf(t, p), UtcOf(Later(t, 1), p))
\* one tick on is one tick on, except where an ordinary day ends
Steady == LET u == UtcOf(t, p) v == UtcOf(Later(t, 1), p)
          IN v = <<u[1], u[2] + 1>> \/ (v = <<u[1] + 1, 0>> /\ u[2] + 1 \in {DT, DT + TS})
RoundTrip == GpsOf(UtcOf(t, p), p) = t
Only60 == LET h == Clock(UtcOf(t, p)[2])
          IN h[3] = 60 <=> InLeap(t, p)
LongDays == UtcOf(t, p)[2] >= DT => IF p.use = 1 THEN p.lsf > p.ls
                                    ELSE Civil(UtcOf(t, p)[1]) \in {LeapDays[i] : i \in 1..Len(LeapDays)}
Offs == p.use = 0 => Offset(t, p) % TS = 0 /\ Offset(t, p) \div TS \in 0..18
===============================================================================
