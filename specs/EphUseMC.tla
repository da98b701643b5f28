-------------------------------- MODULE EphUseMC -------------------------------
EXTENDS EphUse
\* one representative code per constellation, weeks of 16 ticks, one tick a second
Reps == {0, 2, 3, 12, 14, 31}
Eph(c, valid, wn, k, fit, w, iodc) ==
  [c |-> c, valid |-> valid, toe |-> <<wn, k>>, toc |-> <<wn, k>>, fit |-> fit, w |-> w, ura |-> 20000, src |-> 0,
   iode |-> 17, iodc |-> iodc, iod |-> iodc]
VARIABLES e, t
Init == /\ e \in {Eph(c, v, wn, k, f, w, i) : c \in Reps, v \in {0, 1}, wn \in {0, 5, -1}, k \in {0, 3, 12}, f \in {0, 4, 10},
                                             w \in {0, 31}, i \in {17, 300}}
        /\ t \in ({4, 5, 6} \X (0..15)) \cup {<<-1, k>> : k \in 0..15}
Next == UNCHANGED <<e, t>>
\* usable means every condition holds, and each failing one has its own name
Conjunction == Usable(e, t) <=> /\ e.valid = 1 /\ e.toe[1] # 0 /\ e.fit > 0 /\ EphHealthy(1, e.w, e.ura, e.c) /\ IodOk(e)
                                /\ InWindow(e, t)
\* the windows are as long as the fit interval and contain the reference time
Windows == (~Always(e) /\ e.toe[1] > 0) =>
  LET b == Opens(e, e.toe) c == Closes(e, e.toe) IN
  /\ T!Diff(c, b) = T!Norm(0, e.fit)
  /\ T!InRange(b, c, e.toe)
  /\ Cons(e.c) \in {"BDS", "GAL"} => b = e.toe
\* a time without a week is judged as the nearest time with that time of week
NearestWeek == (t[1] = -1 /\ e.toe[1] = 5 /\ e.fit > 0 /\ ~Always(e) /\ (t[2] - e.toe[2]) \notin {8, -8}) =>
  (InWindow(e, t) <=> \E w \in {4, 5, 6} : LET d == T!Diff(<<w, t[2]>>, e.toe) IN
                        /\ T!LessEq(d, <<0, 7>>) /\ T!LessEq(T!Negate(d), <<0, 7>>)
                        /\ InWindow(e, <<w, t[2]>>))
\* the window is one interval of time: no gaps
Interval == (t[1] = 5 /\ e.toe[1] = 5) =>
  \A k \in 0..15 : \A j \in 0..15 :
    (k < t[2] /\ t[2] < j /\ InWindow(e, <<5, k>>) /\ InWindow(e, <<5, j>>)) => InWindow(e, t)
\* almanacs use a window of the same length on both sides
Almanac == LET a == [c |-> 0, valid |-> e.valid, w |-> e.w, fit |-> e.fit, toa |-> <<5, e.toe[2]>>] IN
  (AlmUsable(a, t) /\ t[1] = 5) => AlmUsable([a EXCEPT !.fit = e.fit + 2], t)
===============================================================================
