META = {"technique": "TLA+ model of the estimator in real arithmetic (measurement noise model, weighted least squares with one clock per constellation, covariance, residual test, search for exclusions), its defining laws checked with TLC; TLC validation of solver runs on measurements with known errors",
        "note": "Epochs of five to eleven signals of up to four constellations along exact directions, each with its own strength, elevation, lock state and lock time, range errors from centimetres to 98 m and range-rate errors to 5 m/s, none to three of them outliers; position, velocity, clock offset and drift errors, all covariances, the verdict of the residual test, and which one or two signals are excluded are predicted by the model. Epochs whose numbers leave the range of exact evaluation or where an exclusion makes the geometry singular are not judged (about a quarter)."}


def run(ctx):
    ctx.mc("LsqMC")
    if not ctx.quick:
        ctx.mc("LsqMC", "LsqMCdeep.cfg")
    q = 1 if ctx.quick else 0
    for part in ((6, 7) if ctx.quick else (6, 7, 8, 9)):
        t = ctx.driver("spp", [part, q, ctx.seed], cfg="asan", what="epochs with errors")
        ctx.validate("LsqTrace", t, what="epochs with errors", minchunk=60)
