------------------------------ MODULE EqualityMC ------------------------------
EXTENDS Equality
Kinds == {"eph", "alm", "meas", "std", "bias", "iono"}
ConsSet == {CONS[i] : i \in 1..6}
AllFields == UNION {Counted(k, c) : <<k, c>> \in {<<k, c>> \in Kinds \X ConsSet : Supported(k, c)}} \cup {"ura", "source", "junk"}
Sizes == {"within", "over"}
VARIABLES k, c, x, y
Init == /\ k \in Kinds /\ c \in ConsSet /\ Supported(k, c)
        /\ x \in AllFields \X Sizes /\ y \in AllFields \X Sizes
Next == UNCHANGED <<k, c, x, y>>
\* a copy is equal; one counted difference is enough, whatever else differs
Reflexive == Equal(k, c, {})
OneIsEnough == ~Equal(k, c, {x}) => ~Equal(k, c, {x, y})
NoneIsNone == (Equal(k, c, {x}) /\ Equal(k, c, {y})) => Equal(k, c, {x, y})
\* identity and timing count for everything that has them
IdTiming == (k \in {"eph", "alm", "meas", "std"} /\ x[1] \in Identity) => ~Equal(k, c, {x})
\* the models of other satellites do not count
Foreign == k \in {"eph", "alm"} =>
  (x[1] \in {"crc", "gamma", "a_gf0", "lambda", "m0", "tgd0"} =>
     (~Equal(k, c, {x}) => x[1] \in (IF k = "eph" THEN EphModel(c) ELSE AlmModel(c))))
\* tolerance only for continuous quantities
Tolerance == (x[2] = "within" /\ x[1] \notin Discrete) => Equal(k, c, {x})
===============================================================================
