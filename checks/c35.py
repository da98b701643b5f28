META = {"technique": "TLA+ fixed-point model of Greenwich mean sidereal time over a calendar, its laws (a sidereal day shorter than a solar one, continuity over midnights, a turn a day) checked with TLC, and of the 1024-week cycle; TLC validation of recorded conversions",
        "note": "dates 1980 to 2099, every month length, both sides of midnight, UT1-UTC to 0.9 s (near the boundary of the UT1 date either day is accepted); agreement to 10^-10 rad; week cycles from six references, every edge."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("SiderealMC")
    if not ctx.quick:
        ctx.mc("SiderealMC", "SiderealMCdeep.cfg")
    for k in range(1 if ctx.quick else 3):
        t = ctx.driver("sidereal", [0, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what="sidereal time")
        ctx.validate("SiderealTrace", t, what="sidereal time", minchunk=100)
