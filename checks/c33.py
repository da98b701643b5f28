META = {"technique": "TLA+ fixed-point specification of the Klobuchar, UNB3m/Niell and EGM2008 bicubic models (symmetries, bounds and continuity checked with TLC); TLC validation of the delays and geoid heights computed by the real code",
        "note": "Whole globe with poles, tropics, table breakpoints and date line, all times of week and days of year, all elevations and azimuths, broadcast parameter sets over their full coded range, heights below zero and at and above the top; ionosphere to 10^-8 m, neutral atmosphere to 10^-5, geoid to 3 mm (single-precision positions). The geoid table is pinned as specs/geoid.json."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("AtmosMC")
    ctx.mc("GeoidMC")
    if not ctx.quick:
        ctx.mc("AtmosMC", "AtmosMCdeep.cfg")
        ctx.mc("GeoidMC", "GeoidMCdeep.cfg")
    q = 1 if ctx.quick else 0
    for part, what in ((0, "ionosphere"), (1, "neutral atmosphere"), (2, "geoid")):
        t = ctx.driver("atmos", [part, q, ctx.seed], cfg="asan", what=what)
        ctx.validate("AtmosTrace", t, what=what, minchunk=150)
