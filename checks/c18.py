META = {"technique": "TLA+ catalogue of the D1 subframe 1-3 fields with split pieces (lemmas: disjoint, independent) and of the identity checksum over them (lemmas: every identity bit shows, others do not); TLC validation of decoded ephemerides bit by bit",
        "note": "every message bit on its own and against a random background, field boundary values, random messages; BeiDou time of week is kept and only the week number is moved to GPS (as the repository's own test expects)."}


def run(ctx):
    ctx.mc("BdsNavMC")
    t = ctx.driver("bdsnav", [1 if ctx.quick else 0, ctx.seed, 0], cfg="asan", what="BeiDou D1 ephemeris")
    ctx.validate("BdsNavTrace", t, what="BeiDou D1 ephemeris", minchunk=100)
