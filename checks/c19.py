META = {"technique": "TLA+ catalogue of the I/NAV word 1-5 fields (lemmas: disjoint, independent); TLC validation of decoded ephemerides bit by bit",
        "note": "every message bit on its own and against a random background, every accuracy index and health combination, time boundaries, random pages; word types and issues of data are the caller's to match, as the decoder takes no notice of them."}


def run(ctx):
    ctx.mc("GalNavMC")
    t = ctx.driver("galnav", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="Galileo ephemeris")
    ctx.validate("GalNavTrace", t, what="Galileo ephemeris", minchunk=100)
