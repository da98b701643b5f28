META = {"technique": "TLA+ selection of the bias by availability mask, lemmas over every code and mask; TLC validation of corrections for every code and mask and of every pair of masks and flags",
        "note": "exhaustive over codes (also outside the catalogue) and masks; bias values random, exactly representable; equality of bias sets under every single and combined difference."}


def run(ctx):
    ctx.mc("GloBiasMC")
    q = 1 if ctx.quick else 0
    t = ctx.driver("globias", [q, ctx.seed], cfg="asan", what="bias corrections")
    ctx.validate("GloBiasTrace", t, what="bias corrections", minchunk=100)
    t = ctx.driver("eq", [q, ctx.seed, 1], cfg="asan", what="equality of bias sets")
    ctx.validate("EqualityTrace", t, what="equality of bias sets", minchunk=500)
