META = {"technique": "TLA+ step tables for accuracy indices and lock time indicators with inverse/monotone/covering lemmas over every tenth of a metre and millisecond ranges; TLC validation of every index and of values at, just below and just above each step",
        "note": "all 256 indices of each decoder; accuracies at float neighbours of the tenths of metres around every step; lock times around every power of two, millisecond sweeps, months and beyond 32-bit milliseconds."}


def run(ctx):
    ctx.mc("QuantMC")
    t = ctx.driver("quant", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="accuracy and lock time codes")
    ctx.validate("QuantTrace", t, what="accuracy and lock time codes", minchunk=20)
