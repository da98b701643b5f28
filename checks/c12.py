META = {"technique": "TLA+ calendar and leap-second clock, walked day by day and tick by tick in TLC (monotone, steady, round trip); TLC validation of the real code's conversions; LeapEdge: readings within nanoseconds of a leap second",
        "note": "every second day of 1980-2075 (every day to 2600 in the thorough tier) plus windows of 1/1024 s steps around every half-year end and around leap seconds announced by generated parameters; 2^-30 s and single roundings around them with decoded polynomials; values that pass through a modified Julian date are compared to the nearest 1/1024 s because a double holds no more than microseconds there."}


def run(ctx):
    ctx.mc("CalendarMC", None if ctx.quick else "CalendarMCdeep.cfg")
    ctx.mc("UtcMC")
    q = 1 if ctx.quick else 0
    for part, what in ((0, "GPS to UTC and back"), (1, "broadcast UTC parameters"), (2, "calendar and Unix time")):
        t = ctx.driver("utc", [part, q, ctx.seed], what=what)
        ctx.validate("UtcTrace", t, what=what, minchunk=1000)
    ctx.mc("LeapEdgeMC")
    t = ctx.driver("utc", [3, q, ctx.seed], what="next to leap seconds")
    ctx.validate("LeapEdgeTrace", t, what="next to leap seconds", minchunk=1000)
