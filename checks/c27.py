META = {"technique": "TLA+ rational model of the group delay of every signal and of the broadcast clock polynomial, lemmas over the signal catalogue; TLC validation of corrections and clock errors in units of 2^-40 s",
        "note": "every signal code, random and one-hot broadcast delays, ephemerides carried under any code of the constellation, mismatching ephemerides (refused or stopped by an assertion), clock offset/drift/rate before and after the reference time."}


def run(ctx):
    ctx.mc("TgdMC")
    q = 1 if ctx.quick else 0
    t = ctx.driver("tgd", [0, q, ctx.seed], cfg="asan", what="group delays")
    ctx.validate("TgdTrace", t, what="group delays", minchunk=500)
    t = ctx.driver("tgd", [1, q, ctx.seed], cfg="asan", what="satellite clocks")
    ctx.validate("TgdTrace", t, what="satellite clocks", minchunk=500)
