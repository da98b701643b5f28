META = {"technique": "TLA+ specification of sinks, level gates and limiters, model-checked; TLC validation of what every logging macro delivered in translation units of every level and debug setting",
        "note": "all levels x debug flags x macros x sinks (two installed ones, one that replaces itself while delivering, the built-in one with and without stderr output), limiters with four thresholds over forward, equal and backward time stamps; time stamp 0xffffffff (the limiters' own 'never' value) and paths of 255 characters or more are outside the property."}


def run(ctx):
    ctx.mc("LoggingMC", None if ctx.quick else "LoggingMCdeep.cfg")
    for cfg in ("asan", "log"):
        t = ctx.driver("logging", [1 if ctx.quick else 0, ctx.seed, 1 if cfg == "log" else 0],
                       cfg=cfg, what="logging macros and limiters")
        ctx.validate("LoggingTrace", t, what="logging macros and limiters", reset=False)
