META = {"technique": "TLA+ catalogue of the fields that count per record kind and constellation, with lemmas over all pairs of differences; TLC validation of both directions of every comparison",
        "note": "every field of every record kind, each size of difference (within / beyond the tolerance, every bit of discrete fields), every constellation and code, pairs up to four differences at once, unused bytes of the model union."}


def run(ctx):
    ctx.mc("EqualityMC")
    t = ctx.driver("eq", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="comparisons of records")
    ctx.validate("EqualityTrace", t, what="comparisons of records", minchunk=500)
