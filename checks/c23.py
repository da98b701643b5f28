META = {"technique": "TLA+ catalogue of almanac page fields plus the almanac ageing rule; TLC validation of decoded pages bit by bit and of usability answers around the window ends",
        "note": "one-bit pages for every bit, every page id, every health word, boundary weeks, random pages; ageing at and next to half the fit interval and week ends."}


def run(ctx):
    ctx.mc("LnavMC")
    ctx.mc("EphUseMC")
    q = 1 if ctx.quick else 0
    t = ctx.driver("lnav", [2, q, ctx.seed], cfg="asan", what="GPS almanac pages")
    ctx.validate("LnavTrace", t, what="GPS almanac pages", minchunk=100)
    t = ctx.driver("ephuse", [1, q, ctx.seed], cfg="asan", what="almanac ageing")
    ctx.validate("EphUseTrace", t, what="almanac ageing", minchunk=100)
