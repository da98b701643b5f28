--------------------------------- MODULE LsqMC ---------------------------------
(* An epoch with measurement errors grows by one measurement at a time; the      *)
(* estimate must obey the laws that define least squares.                         *)
EXTENDS Lsq, TLC
CONSTANTS MaxN, Errors
VARIABLE ms
\* code, satellite, direction, strength, elevation, lock, lock time
Pal == <<<<0, 1, 5, 450, 60, 1, 90>>, <<0, 2, 7, 400, 30, 1, 20>>, <<0, 3, 1, 330, 12, 0, 40>>, <<1, 4, 25, 500, 80, 1, 99>>, <<0, 5, 11, 420, 45, 1, 0>>,
         <<14, 1, 19, 380, 20, 1, 50>>, <<14, 2, 23, 410, 33, 0, 50>>, <<3, 6, 13, 470, 50, 1, 60>>, <<4, 7, 3, 300, 5, 1, 41>>>>
M(i, e) == LET p == Pal[i] IN [c |-> p[1], s |-> p[2], d |-> p[3], q |-> p[4], el |-> p[5], pl |-> p[6], lk |-> p[7], e |-> e, v |-> -e, fcn |-> 1 + i, i |-> i]
Init == ms = <<>>
Next == /\ Len(ms) < MaxN
        /\ \E i \in DOMAIN Pal, e \in Errors : /\ \A j \in DOMAIN ms : ms[j].i < i
                                               /\ ms' = Append(ms, M(i, e * (((i * i * 37) % 400) - 100)))
A0 == Used("all", [on |-> 0, t |-> 0], ms)
U == DOMAIN ms
k == A0.k
nk == Len(k)
Obs == ms # <<>> /\ Full(ms, U, k)
Q == Prep(ms, k)
Tiny(x) == Less(Mag(x), E8(1))
\* residual of measurement i
R(P, s, i) == P[i].x \ominus (Over((Mult(s.y[1], P[i].d[1]) \oplus Mult(s.y[2], P[i].d[2]) \oplus Mult(s.y[3], P[i].d[3])), 3) \oplus ClkOf(s, P[i].j))
\* the estimate leaves residuals orthogonal to every column, and T is their sum
Normal(P) == LET s == Est(P, U, nk) r == [i \in U |-> R(P, s, i)] \o <<>> IN s.known =>
  /\ \A j \in 1..nk : Tiny(FSum([i \in U |-> IF P[i].j = j THEN P[i].w \otimes r[i] ELSE Zero] \o <<>>, U))
  /\ \A a \in 1..3 : Tiny(FSum([i \in U |-> Mult(P[i].w \otimes r[i], P[i].d[a])] \o <<>>, U))
  /\ Close(s.T, FSum([i \in U |-> P[i].w \otimes Sq(r[i])] \o <<>>, U), E8(1))
NormalEquations == Obs => LET q == Q IN Normal(q.R) /\ Normal(q.D)
\* measurements without error are explained exactly
Perfect(P) == [i \in U |-> [P[i] EXCEPT !.x = Over(Num(7 * P[i].d[1] - 4 * P[i].d[2] + 11 * P[i].d[3] + 5 * P[i].j), 3)]] \o <<>>
Reproduces == Obs => LET s == Est(Perfect(Q.R), U, nk) IN s.known =>
  /\ Tiny(s.T) /\ Close(s.y[1], Num(7), E8(1)) /\ Close(s.y[2], Num(-4), E8(1)) /\ Close(s.y[3], Num(11), E8(1))
  /\ \A j \in 1..nk : Close(ClkOf(s, j), Over(Num(5 * j), 3), E8(1))
\* with equal weights the covariance is the exact geometry of Spp
Flat(P) == [i \in U |-> [P[i] EXCEPT !.w = One]] \o <<>>
Geometry == (Obs /\ Small(ms, U, k)) => LET s == Est(Flat(Q.R), U, nk) g == Geo(ms, U, k) d == CovF(s) IN
  /\ s.known
  /\ \A h \in 1..6 : LET c == CovOf(g, h) IN (c > -5000000 /\ c < 5000000) => Close(d[h], E4(c), E4(2))
  /\ LET t == Tdop2(g, ms, U, k) IN t < 5000000 => Close(ClkVar(s), E4(t), E4(4))
\* what is left over never grows when a measurement is taken away, and an added
\* measurement never worsens the estimate
Less1 == Obs => LET P == Q.R s == Est(P, U, nk) c == CovF(s) v == ClkVar(s) IN \A i \in U :
  LET S == U \ {i} IN Full(ms, S, k) => LET t == Est(P, S, nk) IN t.known => LET d == CovF(t) IN
    /\ AtMost(t.T, s.T \oplus E8(1))
    /\ \A h \in {1, 4, 6} : (Sane(c[h]) /\ Sane(d[h])) => AtMost(c[h], d[h] \oplus E8(1))
    /\ AtMost(v, ClkVar(t) \oplus E8(1))
\* an error common to a constellation moves its clock and nothing else
Shifted(P, j) == [i \in U |-> IF P[i].j = j THEN [P[i] EXCEPT !.x = P[i].x \oplus Num(3)] ELSE P[i]] \o <<>>
CommonError == Obs => LET P == Q.R s == Est(P, U, nk) IN s.known => \A j \in 1..nk :
  LET t == Est(Shifted(P, j), U, nk) IN
  /\ Close(s.T, t.T, E8(1)) /\ Vclose(s.y, t.y, E8(1))
  /\ \A h \in 1..nk : Close(ClkOf(t, h), ClkOf(s, h) \oplus (IF h = j THEN Num(3) ELSE Zero), E8(1))
\* the noise model: better conditions never mean more noise
Better(m) == {[m EXCEPT !.q = @ + 10], [m EXCEPT !.el = @ + 5], [m EXCEPT !.pl = 1], [m EXCEPT !.lk = @ + 7]}
Noise == \A i \in U : /\ Less(Zero, RangeVar(ms[i])) /\ Less(Zero, RateVarHz(ms[i]))
                      /\ \A b \in Better(ms[i]) : AtMost(RangeVar(b), RangeVar(ms[i])) /\ AtMost(RateVarHz(b), RateVarHz(ms[i]))
================================================================================
