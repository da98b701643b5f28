META = {"technique": "TLA+ signal catalogue as data with TLC-checked band-plan lemmas; exhaustive TLC validation of every catalogue answer of the real code",
        "note": "exhaustive over all codes, satellites, GLONASS channels, SBAS satellites and names; the catalogue data in the specification is transcribed from the published band plans and the library's documented tables."}


def run(ctx):
    ctx.mc("SignalsMC")
    t = ctx.driver("signals", ["c", 1 if ctx.quick else 0, ctx.seed], what="signal catalogue")
    ctx.validate("SignalsTrace", t, what="signal catalogue", jobs=4)
