META = {"technique": "TLA+ catalogue of GLONASS string fields, limits and accumulation rules (lemmas: disjoint, independent); TLC validation of each string decoder and of the five-string ephemeris",
        "note": "every bit on its own, every value of the small fields, limits at and around their boundaries, wrong string numbers, corrupted strings, all other outputs compared before and after; bits beyond the 85 of a string are zero, as in the receiver."}


def run(ctx):
    ctx.mc("GloNavMC")
    t = ctx.driver("glonav", [0, 1 if ctx.quick else 0, ctx.seed], cfg="asan", what="GLONASS strings")
    ctx.validate("GloNavTrace", t, what="GLONASS strings", minchunk=100)
