----------------------------------- MODULE ObsMC ---------------------------------
(* A satellite moves away at a steady speed and its clock drifts; the receiver      *)
(* measures every second.  What is left after the correction is geometry alone, and *)
(* the three observables stay each other's rates.                                   *)
EXTENDS Obs
CONSTANT Ticks
VARIABLES t, b, rho
vars == <<t, b, rho>>
Speed == <<0, 0, 6120, 0, 0>>            \* 612 m/s in thousands of kilometres
Drift == <<0, 13, 0, 0, 0>>              \* microseconds a second: 1.3 10^-9
F == <<1, 5754, 2000, 0, 0>>
Lam == <<0, 0, 19, 293, 6730>>           \* metres in millions
Init == t = 0 /\ b = Num(-200) /\ rho = Num(24)
Next == t < Ticks /\ t' = t + 1 /\ b' = b \oplus Drift /\ rho' = rho \oplus Speed
Spec == Init /\ [][Next]_vars
\* what is measured: the clock running ahead shortens the range
P == rho \ominus (C \otimes b)
\* cycles: a range in thousands of kilometres by the carrier over the speed of light
Cycles(x) == (x \otimes F) \oslash Mult(C, 1000)
L == Cycles(P)
\* Hertz/1000: minus the growth of the phase in a second
D == Neg(Mult(Cycles(Speed \ominus (C \otimes Drift)), 1000))
Rate == Mult(Drift, 1000)
TypeOk == Sane(P) /\ Sane(L) /\ Sane(D)
Geometry == /\ Close(Range(P, b), rho, E16(4)) /\ Close(Phase(L, F, b), Cycles(rho), E12(1)) /\ Close(Doppler(D, F, Rate), Neg(Mult(Cycles(Speed), 1000)), E8(1))
\* the wrong sign would show
Shows == /\ ~Close(Range(P, Neg(b)), rho, E8(1)) /\ ~Close(Doppler(D, F, Neg(Rate)), Neg(Mult(Cycles(Speed), 1000)), E8(10))
Nothing == Range(P, Zero) = P /\ Phase(L, F, Zero) = L /\ Doppler(D, F, Zero) = D
===============================================================================
