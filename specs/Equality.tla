------------------------------- MODULE Equality -------------------------------
(* Which differences make two records unequal.  A record is a kind, the         *)
(* constellation that decides which model it carries, and a set of differences: *)
(* field name -> size of the difference ("within": not more than the comparison *)
(* tolerance, "over": more).  Discrete fields differ or do not.                 *)
EXTENDS Signals
Xyz(p) == {p \o "0", p \o "1", p \o "2"}
Model3 == Xyz("pos") \cup Xyz("vel") \cup Xyz("acc")
Identity == {"sat", "code"}
\* ---- model parameters of each constellation ------------------------------------
KeplerOrbit == {"m0", "ecc", "sqrta", "omega0", "omegadot", "w", "inc", "af0", "af1"}
EphModel(cons) ==
  CASE cons \in {"GPS", "QZS", "BDS", "GAL"} ->
         KeplerOrbit \cup {"crc", "crs", "cuc", "cus", "cic", "cis", "dn", "inc_dot", "af2", "tgd0", "tgd1",
                           "toc.tow", "toc.wn", "iodc", "iode"}
    [] cons = "GLO"  -> Model3 \cup {"gamma", "tau", "d_tau", "fcn", "iod"}
    [] cons = "SBAS" -> Model3 \cup {"a_gf0", "a_gf1"}
AlmModel(cons) ==
  CASE cons = "GPS"  -> KeplerOrbit
    [] cons = "GLO"  -> {"lambda", "t_lambda", "i", "t", "t_dot", "epsilon", "omega"}
    [] cons = "SBAS" -> Model3
\* ---- the fields that count -----------------------------------------------------
\* accuracy, fit interval and source of an ephemeris do not count: receivers differ
Counted(kind, cons) ==
  CASE kind = "eph"  -> Identity \cup {"toe.wn", "toe.tow", "valid", "health_bits"} \cup EphModel(cons)
    [] kind = "alm"  -> Identity \cup {"toa.wn", "toa.tow", "valid", "health_bits", "ura", "fit_interval"} \cup AlmModel(cons)
    [] kind = "meas" -> Identity \cup Xyz("sat_pos") \cup Xyz("sat_vel") \cup Xyz("sat_acc")
                          \cup {"raw_pseudorange", "raw_carrier_phase", "raw_measured_doppler", "raw_computed_doppler", "eph_key",
                                "sat_clock_err", "sat_clock_err_rate", "cn0", "lock_time", "elevation", "tot.wn", "tot.tow", "flags"}
    [] kind = "std"  -> Identity \cup {"iono_std", "tropo_std", "range_std", "flags"}
    [] kind = "bias" -> {"mask", "l1of", "l1p", "l2of", "l2p"}
    [] kind = "iono" -> {"toa.wn", "toa.tow", "a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3"}
Discrete == Identity \cup {"toe.wn", "toa.wn", "toc.wn", "tot.wn", "valid", "health_bits", "fit_interval", "iodc", "iode", "fcn",
                           "iod", "eph_key", "flags", "mask"}
\* d: set of <<field, size>>
Equal(kind, cons, d) == ~\E x \in d : /\ x[1] \in Counted(kind, cons)
                                      /\ x[1] \in Discrete \/ x[2] = "over"
\* kinds that exist for a constellation
Supported(kind, cons) == kind # "alm" \/ cons \in {"GPS", "GLO", "SBAS"}
===============================================================================
