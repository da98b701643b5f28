------------------------------------- MODULE Obs ---------------------------------
(* Taking the satellite clock out of what a receiver measures.  Ranges in thousands *)
(* of kilometres, phase in millions of cycles, Doppler in kHz, carriers in GHz,     *)
(* clocks in microseconds and their rates in 10^-9.                                 *)
EXTENDS Fix
C == <<0, 2, 9979, 2458, 0>>             \* in a microsecond
Range(p, b) == p \oplus (C \otimes b)
Phase(l, f, b) == l \oplus Over(f \otimes b, 1000)
Doppler(d, f, r) == d \ominus Over(f \otimes r, 1000)
===============================================================================
