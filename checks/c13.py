META = {"technique": "TLA+ Moscow-time clock in four-year cycles, ticked through year, cycle and leap-second ends in TLC; TLC validation of the real code's conversions both ways",
        "note": "instants of 1/1024 s from 1996 to 2118, windows around month, year and cycle ends and inserted seconds (built-in and announced ones, down to single roundings), all cycle numbers with all boundary day numbers; the 1461st day of the cycle of 2100, which has 1460 days, is not judged."}


def run(ctx):
    ctx.mc("GloTimeMC")
    t = ctx.driver("glotime", [1 if ctx.quick else 0, ctx.seed], what="GLONASS time")
    ctx.validate("GloTimeTrace", t, what="GLONASS time", minchunk=1000)
    ctx.mc("LeapEdgeMC")
    t = ctx.driver("utc", [4, 1 if ctx.quick else 0, ctx.seed], what="next to leap seconds")
    ctx.validate("LeapEdgeTrace", t, what="next to leap seconds", minchunk=1000)
