META = {"technique": "TLA+ fixed-point model of the satellite clock in the three observables, with the geometry it must leave behind checked with TLC; TLC validation of the real corrections",
        "note": "every code with its carrier (GLONASS with its frequency number), clock errors to 1.9 ms and rates to 4 ns/s, any flags; agreement to a micrometre, a millionth of a cycle and a nanohertz; the measurement is not changed."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("ObsMC")
    for k in range(1 if ctx.quick else 3):
        t = ctx.driver("obs", [0, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what="corrected measurements")
        ctx.validate("ObsTrace", t, what="corrected measurements", minchunk=100)
