META = {"technique": "TLA+ signal identifier order/index/name specification with TLC-checked lemmas; TLC validation of the recorded answers of the real code for all identifiers",
        "note": "all codes with all satellite numbers 0..254, boundary and random larger ones, all pairs of a sample of 199 signals; comparison and hashing of ids with codes outside the catalogue are not explored."}


def run(ctx):
    ctx.mc("SignalsMC")
    t = ctx.driver("signals", ["s", 1 if ctx.quick else 0, ctx.seed], what="signal identifiers")
    ctx.validate("SignalsTrace", t, what="signal identifiers")
    t = ctx.driver("sigops", [ctx.seed], what="comparison operators")
    ctx.validate("SignalsTrace", t, what="comparison operators")
