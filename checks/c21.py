META = {"technique": "TLA+ Hamming-code specification with all single and double errors model-checked exhaustively; TLC validation of the real check on random strings with every single and double inversion",
        "note": "the code is linear, so the model covers every double error; the real function is run on random contents with all 85 single and (a sample) all 3570 double inversions, and extraction at every position and width."}


def run(ctx):
    ctx.mc("GloNavMC")
    t = ctx.driver("glonav", [1, 1 if ctx.quick else 0, ctx.seed], cfg="asan", what="GLONASS check code")
    ctx.validate("GloNavTrace", t, what="GLONASS check code", minchunk=10)
