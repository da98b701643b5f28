----------------------------------- MODULE Lsq ----------------------------------
(* The estimate behind a single-epoch position, in real arithmetic.  Measurements *)
(* are those of Spp, taken along exact lattice directions, each with a strength,  *)
(* an elevation, a lock time and an error of its own; from these follow the noise *)
(* model, the weighted least-squares estimate of position, clocks, velocity and   *)
(* drifts, its covariance, the weighted sum of squared residuals and the search   *)
(* for signals to exclude.                                                        *)
(* m: [c, s, d, q strength (tenths dB-Hz), el (deg), pl phase lock, lk lock time   *)
(*     (tenths s), e range error (cm), v range-rate error (mm/s), fcn]             *)
EXTENDS Spp, Fix
FSum(f, S) == FoldLeft(LAMBDA a, i : a \oplus f[i], Zero, SetToSeq(S))
\* ---- noise model: variance in square metres and in square hertz
Base10(c) == CASE c \in {0, 5} -> 4 [] Cons(c) = "GPS" -> 10 [] Cons(c) = "GLO" -> 80
               [] Cons(c) = "BDS" -> 5 [] Cons(c) = "GAL" -> 4 [] Cons(c) = "QZS" -> 10
Faint(q) == Exp(Neg(Over(Num(q), 65)))                     \* exp(-cn0/6.5)
SinEl(el) == Sin(Over(Mult(Pi, el), 180))
Penalty(m) == LET lock == IF m.lk >= 40 THEN One ELSE Num(4) \ominus Over(Mult(Num(3), m.lk), 40)
              IN IF m.pl = 1 THEN lock ELSE Mult(lock, 16)
RangeVar(m) == (Over(Num(Base10(m.c)), 10) \oplus (Mult(Faint(m.q), 780) \oplus Over(Recip(Sq(SinEl(m.el))), 10))) \otimes Penalty(m)
RateVarHz(m) == (Over(One, 10) \oplus Mult(Faint(m.q), 700)) \otimes Penalty(m)
\* wavelength in metres
MHz(f) == <<f \div 1000000, (f % 1000000) \div 100, (f % 100) * 100, 0, 0>>
Wave(m) == <<299, 7924, 5800, 0, 0>> \oslash MHz(CarrierHz(m.c, m.fcn))
\* ---- a set of observations: for each d direction, j clock, w weight relative to
\* ref / variance, x error
Least(f) == LET i == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : AtMost(f[i], f[j]) IN f[i]
Clock(k, c) == CHOOSE j \in DOMAIN k : k[j] = c
Prep(ms, k) ==
  LET n == Len(ms)
      rv == [i \in 1..n |-> RangeVar(ms[i])] \o <<>>
      hz == [i \in 1..n |-> RateVarHz(ms[i])] \o <<>>
      lam == [i \in 1..n |-> Wave(ms[i])] \o <<>>
      dv == [i \in 1..n |-> hz[i] \otimes Sq(lam[i])] \o <<>>
      rr == Least(rv) dr == Least(dv)
  IN [r |-> rr, dr |-> dr,
      R |-> [i \in 1..n |-> [d |-> Dirs[ms[i].d], j |-> Clock(k, Cons(ms[i].c)), w |-> rr \oslash rv[i], x |-> Over(Num(ms[i].e), 100)]] \o <<>>,
      D |-> [i \in 1..n |-> [d |-> Dirs[ms[i].d], j |-> Clock(k, Cons(ms[i].c)), w |-> Ratio(dr, dv[i]), x |-> Over(Num(ms[i].v), 1000)]] \o <<>>,
      lam |-> lam]
\* sums over the members S of one clock
Sums(P, S) == FoldLeft(LAMBDA a, i : LET p == P[i] wx == p.w \otimes p.x IN
     [w |-> a.w \oplus p.w, e |-> a.e \oplus wx, t |-> a.t \oplus (wx \otimes p.x),
      s |-> <<a.s[1] \oplus Mult(p.w, p.d[1]), a.s[2] \oplus Mult(p.w, p.d[2]), a.s[3] \oplus Mult(p.w, p.d[3])>>,
      b |-> <<a.b[1] \oplus Mult(wx, p.d[1]), a.b[2] \oplus Mult(wx, p.d[2]), a.b[3] \oplus Mult(wx, p.d[3])>>,
      m |-> <<a.m[1] \oplus Mult(p.w, p.d[1] * p.d[1]), a.m[2] \oplus Mult(p.w, p.d[1] * p.d[2]), a.m[3] \oplus Mult(p.w, p.d[1] * p.d[3]),
              a.m[4] \oplus Mult(p.w, p.d[2] * p.d[2]), a.m[5] \oplus Mult(p.w, p.d[2] * p.d[3]), a.m[6] \oplus Mult(p.w, p.d[3] * p.d[3])>>],
   [w |-> Zero, e |-> Zero, t |-> Zero, s |-> <<Zero, Zero, Zero>>, b |-> <<Zero, Zero, Zero>>, m |-> <<Zero, Zero, Zero, Zero, Zero, Zero>>], SetToSeq(S))
F3(op(_)) == <<op(1), op(2), op(3)>>
F6(op(_)) == <<op(1), op(2), op(3), op(4), op(5), op(6)>>
I6 == <<1, 1, 1, 2, 2, 3>>
J6 == <<1, 2, 3, 2, 3, 3>>
\* information about the position once the clocks are eliminated
Reduced(P, S, nk) ==
  LET c == [j \in 1..nk |-> Sums(P, {i \in S : P[i].j = j})] \o <<>>
      mean == [j \in 1..nk |-> F3(LAMBDA i : Ratio(c[j].s[i], c[j].w))] \o <<>>
      off == [j \in 1..nk |-> Ratio(c[j].e, c[j].w)] \o <<>>
      AllJ == 1..nk
      A == F6(LAMBDA h : Over(FSum([j \in AllJ |-> c[j].m[h] \ominus (c[j].s[I6[h]] \otimes mean[j][J6[h]])], AllJ), 9))
      b == F3(LAMBDA i : Over(FSum([j \in AllJ |-> c[j].b[i] \ominus (mean[j][i] \otimes c[j].e)], AllJ), 3))
      t == FSum([j \in AllJ |-> c[j].t \ominus (off[j] \otimes c[j].e)], AllJ)
  IN [A |-> A, b |-> b, t |-> t, w |-> [j \in AllJ |-> c[j].w] \o <<>>, mean |-> mean, off |-> off]
Mn(x, y, z, w) == (x \otimes y) \ominus (z \otimes w)
AdjF(a) == <<Mn(a[4], a[6], a[5], a[5]), Mn(a[3], a[5], a[2], a[6]), Mn(a[2], a[5], a[3], a[4]),
             Mn(a[1], a[6], a[3], a[3]), Mn(a[2], a[3], a[1], a[5]), Mn(a[1], a[4], a[2], a[2])>>
DetF(a, b) == (a[1] \otimes b[1]) \oplus ((a[2] \otimes b[2]) \oplus (a[3] \otimes b[3]))
SymVec(b, v) == <<(b[1] \otimes v[1]) \oplus ((b[2] \otimes v[2]) \oplus (b[3] \otimes v[3])),
                  (b[2] \otimes v[1]) \oplus ((b[4] \otimes v[2]) \oplus (b[5] \otimes v[3])),
                  (b[3] \otimes v[1]) \oplus ((b[5] \otimes v[2]) \oplus (b[6] \otimes v[3]))>>
\* [known, T, x position error, z the reduced sums, adj, det]: known is
\* false when the numbers leave the range of exact evaluation
Est(P, S, nk) ==
  LET z == Reduced(P, S, nk) adj == AdjF(z.A) det == DetF(z.A, adj) IN
  IF Less(det, E4(1)) \/ ~AllSane(adj) THEN [known |-> FALSE]
  ELSE LET y == F3(LAMBDA i : Ratio(SymVec(adj, z.b)[i], det))
           T == z.t \ominus Vdot(z.b, y)
       IN [known |-> AllSane(y), T |-> IF IsNeg(T) THEN Zero ELSE T, x |-> <<Neg(y[1]), Neg(y[2]), Neg(y[3])>>,
           y |-> y, z |-> z, adj |-> adj, det |-> det]
\* covariance of the position and variance of the first clock, per unit weight
CovF(s) == F6(LAMBDA h : Ratio(s.adj[h], s.det))
ClkVar(s) == Ratio(One, s.z.w[1]) \oplus Over(Vdot(s.z.mean[1], SymVec(CovF(s), s.z.mean[1])), 9)
\* error of clock j
ClkOf(s, j) == s.z.off[j] \ominus Over(Vdot(s.z.mean[j], s.y), 3)
\* ---- integrity: the sum of squared residuals, each over its own variance, against
\* 6.25 for every observation.  Residual rates may refer to the drift of their own
\* constellation (lo) or to that of the first, the receiver having but one (hi)
Spread(s) == FoldLeft(LAMBDA a, j : a \oplus (s.z.w[j] \otimes Sq(ClkOf(s, j) \ominus ClkOf(s, 1))), Zero, [j \in DOMAIN s.z.w |-> j] \o <<>>)
Metric(Q, S, nk, vel) ==
  LET r == Est(Q.R, S, nk)
      d == IF vel THEN Est(Q.D, S, nk) ELSE r
  IN IF ~r.known \/ ~d.known THEN [known |-> FALSE]
     ELSE LET lo == Ratio(r.T, Q.r) \oplus (IF vel THEN Ratio(d.T, Q.dr) ELSE Zero) IN
          [known |-> TRUE, r |-> r, d |-> d, lo |-> lo, hi |-> IF vel THEN lo \oplus Ratio(Spread(d), Q.dr) ELSE lo]
Thr(S, vel) == Mult(E4(62500), IF vel THEN 2 * Cardinality(S) ELSE Cardinality(S))
Hair(x) == Over(x, 200) \oplus E4(100)
SurePass(M, S, vel) == Less(M.hi \oplus Hair(M.hi), Thr(S, vel))
SureFail(M, S, vel) == Less(Thr(S, vel) \oplus Hair(M.lo), M.lo)
\* one exclusion leaves clearly less than another
Beats(M, N) == Less(M.hi \oplus Hair(M.hi), N.lo)
===============================================================================
