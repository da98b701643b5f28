META = {"technique": "TLA+ usability specification (status precedence, windows, week fill-in) with interval, length and nearest-week lemmas; TLC validation of every status and answer of the real code around the window ends",
        "note": "19 signals of all constellations, each single fault and mixtures, about 32 times per ephemeris at and next to the window ends and week ends, unknown weeks on either side; even fit intervals where the window is centred, reference times whose window starts after the GPS epoch."}


def run(ctx):
    ctx.mc("EphUseMC")
    t = ctx.driver("ephuse", [0, 1 if ctx.quick else 0, ctx.seed], cfg="asan", what="ephemeris usability")
    ctx.validate("EphUseTrace", t, what="ephemeris usability", minchunk=100)
