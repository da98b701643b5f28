META = {"technique": "TLA+ set/merge specification model-checked with TLC; TLC validation of exhaustive small-universe runs of the real code under AddressSanitizer",
        "note": "all pairs of sets and all keys over a small universe, all short sequences for the set test, random long arrays; elements of two different sizes; out-of-bounds accesses are observed with AddressSanitizer."}


def run(ctx):
    ctx.mc("SetOpsMC")
    if not ctx.quick:
        ctx.mc("SetOpsMC", "SetOpsMCdeep.cfg")
    t = ctx.driver("setops", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="set operations")
    ctx.validate("SetOpsTrace", t, what="set operations")
