META = {"technique": "TLA+ catalogue of the subframe 1-3 fields and derivations (lemmas: disjoint, independent); TLC validation of decoded ephemerides bit by bit",
        "note": "every message bit on its own and against a random background, every value of every field of up to 8 bits, issue-of-data combinations, time boundaries, random messages."}


def run(ctx):
    ctx.mc("LnavMC")
    t = ctx.driver("lnav", [0, 1 if ctx.quick else 0, ctx.seed], cfg="asan", what="GPS ephemeris")
    ctx.validate("LnavTrace", t, what="GPS ephemeris", minchunk=100)
