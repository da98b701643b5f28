---------------------------------- MODULE OrbitMC --------------------------------
(* Satellites of every kind move on, a tick at a time; the laws of motion hold at   *)
(* every instant.                                                                   *)
EXTENDS Orbit
CONSTANTS Ticks, Hop
VARIABLES n, kind
vars == <<n, kind>>
K0 == [sa |-> <<5, 1537, 0, 0, 0>>, ecc |-> <<0, 100, 0, 0, 0>>, m0 |-> Num(1), w |-> Num(-2), om0 |-> Half(Num(3)), in |-> <<0, 9600, 0, 0, 0>>, dn |-> Zero, omd |-> Zero, ind |-> Zero,
       cus |-> Zero, cuc |-> Zero, cis |-> Zero, cic |-> Zero, crs |-> Zero, crc |-> Zero, af0 |-> Zero, af1 |-> Zero, af2 |-> Zero, tgd |-> Zero]
K1 == [K0 EXCEPT !.ecc = <<0, 1500, 0, 0, 0>>, !.sa = <<6, 4934, 0, 0, 0>>]
K2 == [K0 EXCEPT !.cus = E8(700), !.cuc = E8(300), !.cis = E8(200), !.cic = E8(100), !.crs = E8(5000), !.crc = E8(20000), !.ind = E8(40), !.omd = Neg(E8(800)), !.dn = E8(400)]
K3 == [K0 EXCEPT !.sa = <<6, 4934, 0, 0, 0>>, !.ecc = E8(5000), !.in = Over(Pi, 36)]
Ks == <<K0, K1, K2, K3>>
Systems == <<"gps", "qzs", "gal", "bds">>
T == Mult(Over(Num(Hop), 100), n)
Toe == <<100, 8000, 0, 0, 0>>
G0 == [pos |-> <<Num(7), <<-13, 2000, 0, 0, 0>>, <<20, 5000, 0, 0, 0>>>>, vel |-> <<<<0, 9000, 0, 0, 0>>, <<-3, 3000, 0, 0, 0>>, <<-2, 5000, 0, 0, 0>>>>, acc |-> <<Zero, Zero, Zero>>, tau |-> Zero, gamma |-> Zero, tgd |-> Zero]
S0 == [pos |-> <<Num(42), One, Zero>>, vel |-> <<E8(100), E8(-200), E8(30)>>, acc |-> <<E8(10), Zero, E8(-10)>>, af0 |-> Num(3), af1 |-> One]
Init == n = 0 /\ kind \in 1..6
Next == n < Ticks /\ n' = n + 1 /\ kind' = kind
Spec == Init /\ [][Next]_vars
K == Ks[kind]
C == Systems[kind]
IsGeo == kind = 4
S == Kepler(C, IsGeo, K, Toe, T, T)
Kep == kind <= 4
Plain == kind \in {1, 2}
\* ---- Kepler's laws
Equation == Kep => \A j \in 0..7 : LET m == Over(Mult(Pi, n + j), 4) e == Eccentric(m, K.ecc) IN Close(e \ominus (K.ecc \otimes Sin(e)), m, E16(8))
Radius == Plain => LET r == Vnorm(S.pos) a == Axis(K) IN ~Less(r, (a \otimes (One \ominus K.ecc)) \ominus E12(1)) /\ ~Less((a \otimes (One \oplus K.ecc)) \oplus E12(1), r)
\* velocity in space: what the rotating frame shows plus the rotation
Inertial == LET w == Spin(C) IN <<S.vel[1] \ominus (w \otimes S.pos[2]), S.vel[2] \oplus (w \otimes S.pos[1]), S.vel[3]>>
Energy == Plain => Close(Half(Vdot(Inertial, Inertial)) \ominus (Mu(C) \oslash Vnorm(S.pos)), Neg(Half(Mu(C) \oslash Axis(K))), E8(20))
Cross(a, b) == <<(a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])>>
Area == Plain => LET h == Cross(S.pos, Inertial) p == Mu(C) \otimes (Axis(K) \otimes (One \ominus Sq(K.ecc))) IN
  Close(Vdot(h, h), p, E4(2)) \/ (p[1] > 15000 /\ Close(Vdot(Vscale(h, Half(One)), Vscale(h, Half(One))), Over(p, 4), E4(2)))
\* gravity alone, seen from the rotating frame
Newton == Plain => LET w == Spin(C) g == Mu(C) \oslash (Vnorm(S.pos) \otimes Vdot(S.pos, S.pos)) IN
  Vclose(S.acc, <<(Neg(g \otimes S.pos[1]) \oplus (Sq(w) \otimes S.pos[1])) \oplus Mult(w \otimes S.vel[2], 2), (Neg(g \otimes S.pos[2]) \oplus (Sq(w) \otimes S.pos[2])) \ominus Mult(w \otimes S.vel[1], 2), Neg(g \otimes S.pos[3])>>, E8(10))
\* a revolution later the orbit has come back and the Earth has turned
Period == Plain => LET P == Mult(Pi, 2) \oslash Motion(C, K) IN Vclose(KeplerPos(C, FALSE, K, Toe, T \oplus P), TurnTo(S.pos, Spin(C) \otimes P), E12(1))
Height == Plain => LET p == Plane(C, K, T) IN Close(Mag(S.pos[3]) \oslash p.r, Mag(p.u[1] \otimes Sin(K.in)), E12(1))
\* the corrections are small and of second order in their size
Near == kind = 3 => Less(Vnorm(Vsub(S.pos, KeplerPos(C, FALSE, K0, Toe, T))), E4(50 + 10 * n * Hop))
\* a geostationary satellite stays over its longitude, near the equator
Station == kind = 4 =>
                       /\ Close(Vnorm(S.pos), Plane(C, K, T).r, E12(1))
                       /\ Less(Vnorm(S.vel), <<0, 6000, 0, 0, 0>>)
\* the clock: no clock terms leave relativity alone, which vanishes on a circle
Relativity == Plain => LET e == Eccentric(K.m0 \oplus (Motion(C, K) \otimes T), K.ecc) IN
  Close(S.clk, Neg(Mult(((InvC2 \otimes K.ecc) \otimes Sqrt(Mu(C) \otimes Axis(K))) \otimes Sin(e), 2)), E8(2)) /\ Less(Mag(S.clk), One) /\ S.rate = Zero
Week == /\ Epoch("bds", E4(60)) = <<604, 7920, 0, 0, 0>> /\ Epoch("bds", <<0, 140, 0, 0, 0>>) = Zero /\ Epoch("gps", E4(60)) = E4(60)
\* ---- GLONASS: the Jacobi integral is kept, time can be run back, the north mirrors the south
Y == March(<<G0.pos, G0.vel>>, G0.acc, Over(Num(6), 100), n)
Potential(x) == LET r2 == Vdot(x, x) m == Mu("glo") \oslash Sqrt(r2) q == Over(Glo2 \otimes Sq(GloA), 3) \oslash r2
                IN m \otimes (One \oplus (q \otimes (One \ominus Mult(Sq(x[3]) \oslash r2, 3))))
Jacobi(y) == (Half(Vdot(y[2], y[2])) \ominus Potential(y[1])) \ominus Half(Sq(Spin("glo")) \otimes (Sq(y[1][1]) \oplus Sq(y[1][2])))
Conserved == kind = 5 => Close(Jacobi(Y), Jacobi(<<G0.pos, G0.vel>>), E8(1))
Reverse == (kind = 5 /\ n > 0) => LET b == March(Y, G0.acc, Neg(Over(Num(6), 100)), n) IN Vclose(b[1], G0.pos, E12(2 * n)) /\ Vclose(b[2], G0.vel, E12(2 * n))
Flip(v) == <<v[1], v[2], Neg(v[3])>>
MirrorG == kind = 5 => Vclose(Pull(Flip(Y[1]), Flip(Y[2]), G0.acc), Flip(Pull(Y[1], Y[2], G0.acc)), E12(1))
AtEpoch == LET z == Glonass(G0, Zero) IN Vclose(z.pos, G0.pos, E12(1)) /\ Vclose(z.vel, G0.vel, E12(1))
\* ---- SBAS: speed and acceleration are the derivatives of the place
Derivs == kind = 6 => LET s == Sbas(S0, T) a == Sbas(S0, T \ominus Step) b == Sbas(S0, T \oplus Step) IN
  /\ Vclose(s.vel, Diff(b.pos, a.pos), E8(1)) /\ Vclose(s.acc, Second(a.pos, s.pos, b.pos), E4(1)) /\ s.rate = One
  /\ Close(s.clk, Num(3) \oplus T, E12(1))
\* ---- a receiver that moves along with the satellite hears no shift
NoShift == Plain => LET q == <<Num(6), Num(1), Num(1)>> IN
  Shift(<<1575, 4200, 0, 0, 0>>, S.pos, S.vel, q, S.vel) = Zero /\ Shift(<<1575, 4200, 0, 0, 0>>, S.pos, Vscale(Vsub(S.pos, q), E4(100)), q, <<Zero, Zero, Zero>>) # Zero
===============================================================================
