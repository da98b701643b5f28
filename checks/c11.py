META = {"technique": "TLA+ arithmetic of (week, ticks) instants, lemmas model-checked on a short week; TLC validation of every recorded time operation and of clock histories of the real code",
        "note": "instants are whole 1/1024 s so every result is exact and compared exactly; boundary products (week, half week, unknown week) are swept, the rest is random. Ties of rounding to an epoch may go either way; decimal epoch rates are compared to the nearest eighth of an epoch."}


def run(ctx):
    ctx.mc("TimeMC")
    q = 1 if ctx.quick else 0
    t = ctx.driver("timearith", [0, q, ctx.seed], what="time arithmetic")
    ctx.validate("TimeTrace", t, what="time arithmetic")
    t = ctx.driver("timearith", [2, q, ctx.seed], what="clock histories")
    ctx.validate("TimeTrace", t, what="clock histories", reset="start")
    t = ctx.driver("timearith", [1, q, ctx.seed], what="solution epochs")
    ctx.validate("EpochTrace", t, what="solution epochs")
