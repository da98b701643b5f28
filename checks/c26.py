META = {"technique": "TLA+ model of an epoch (admission, unknowns, exact rational geometry and dilution of precision, detectability of faults, allowed outcomes) checked with TLC; TLC validation of solver runs on measurements synthesised from a known receiver state",
        "note": "41 signal codes of five constellations in random mixes, 3 to 40 measurements along a lattice of thirty exact directions, all strategies, masks at the threshold, receivers on three axes at and beyond the altitude limits, speeds either side of the limit, per-constellation clock biases, one or two gross pseudorange errors, missing Doppler and missing pseudorange; outcome, counts, excluded signals, position, velocity, clock, time, DOPs and covariances are checked, under AddressSanitizer."}


def run(ctx):
    ctx.mc("SppMC")
    ctx.mc("SppMC", "SppMCsub.cfg")
    if not ctx.quick:
        ctx.mc("SppMC", "SppMCdeep.cfg")
        ctx.mc("SppMC", "SppMCsubdeep.cfg")
    q = 1 if ctx.quick else 0
    for part, what in ((1, "mixed epochs"), (2, "uniform strong epochs"), (3, "gross errors"), (4, "many signals"), (5, "missing pseudorange")):
        t = ctx.driver("spp", [part, q, ctx.seed], cfg="asan", what=what)
        ctx.validate("SppTrace", t, what=what, minchunk=150)
