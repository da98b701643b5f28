META = {"technique": "TLA+ set-of-signals state machine (bitmap refinement checked by TLC); TLC validation of every (state, operation) pair of a small universe and random histories of the real code",
        "note": "after each operation of each history both counts and the membership of every valid signal are compared with the specification's state."}


def run(ctx):
    ctx.mc("SidSetMC")
    t = ctx.driver("sidset", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="signal set")
    ctx.validate("SidSetTrace", t, what="signal set", reset=("init", "load"))
