META = {"technique": "TLA+ health-word tables (components struck, conditions, NAV data indications) with monotonicity and band lemmas over all words and codes; TLC validation of every word for every code",
        "note": "exhaustive: 256 words x every signal code (and codes outside the catalogue) for each word check, 256 x 256 words and masks for NAV data indications, every word x accuracy class x validity for the constellation fields; words 3 of subframe 1 sampled bit by bit."}


def run(ctx):
    ctx.mc("HealthMC")
    t = ctx.driver("health", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="health words")
    ctx.validate("HealthTrace", t, what="health words", minchunk=100)
