META = {"technique": "TLA+ catalogue of interface-specification bit positions (lemmas: disjoint, independent, identifiers); TLC validation of the decoded pages, including every single bit on its own",
        "note": "one-bit pages for every page bit, every page id, boundary weeks and days, random pages; scaled values are compared exactly as integers in units of the field's resolution."}


def run(ctx):
    ctx.mc("LnavMC")
    ctx.mc("BdsNavMC")
    q = 1 if ctx.quick else 0
    t = ctx.driver("lnav", [1, q, ctx.seed], cfg="asan", what="GPS ionosphere and UTC pages")
    ctx.validate("LnavTrace", t, what="GPS ionosphere and UTC pages", minchunk=100)
    t = ctx.driver("bdsnav", [q, ctx.seed, 1], cfg="asan", what="BeiDou ionosphere")
    ctx.validate("BdsNavTrace", t, what="BeiDou ionosphere", minchunk=100)
