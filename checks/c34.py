META = {"technique": "TLA+ fixed-point matrices with the equations that characterise inverses, factorisations and least squares (laws checked with TLC over products of rotations and stretchings); TLC validation of residuals of the real routines to 10^-11",
        "note": "Real matrices of one to eight rows and columns built from plane rotations with singular values between 0.3 and 3, with permuted rows, weights 0.5 to 2: inverse, QR factors, linear systems, weighted least squares and covariance, pseudo-inverses tall and wide with their weighted forms, products, U-D-U' factors; matrices with a vanishing row or column are refused."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("RealMC")
    if not ctx.quick:
        ctx.mc("RealMC", "RealMCdeep.cfg")
    for k in range(1 if ctx.quick else 4):
        t = ctx.driver("real", [0, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what="residuals")
        ctx.validate("RealTrace", t, what="residuals", minchunk=100)
