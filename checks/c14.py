META = {"technique": "TLA+ definition of week resolution with model-checked minimality; exhaustive TLC validation of the real code's results",
        "note": "all 1024 (256) truncated weeks against every fourth (every) reference week up to 3200 in the quick tier and every reference up to 20000 in the thorough tier, later references sampled; results beyond 65535 are not judged."}


def run(ctx):
    ctx.mc("WeekCycleMC")
    t = ctx.driver("weekcycle", [1 if ctx.quick else 0, ctx.seed], what="week resolution")
    ctx.validate("WeekCycleTrace", t, what="week resolution", minchunk=200)
