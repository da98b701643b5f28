------------------------------- MODULE WeekCycle -------------------------------
(* A truncated week number stands for the first week with that residue which is *)
(* not before the reference week; a number at or after the reference is complete.*)
EXTENDS Integers
Resolve(raw, ref, m) == IF raw >= ref THEN raw ELSE ref + ((raw - ref) % m)
===============================================================================
